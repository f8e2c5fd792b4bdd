/*@
prop: C48
src: src/main/request.c src/main/http_headers.c src/main/url_parser.rl src/common/utils.c
union-as-struct: 1
light: 1
defs: VH_GSTR_CAP=40 WHAT=0 NH=1 T=0 HV=0 OPT=0 NC=2
unwind: 5
munwind: 40
hunwind: 5
eunwind: 8
unwindset: li_string_assign_len.0:20
quick: conn1 WHAT=0 NC=1 unwind=13
quick: conn2 WHAT=0 unwind=13
quick: host0 WHAT=1 NH=0
quick: hosta WHAT=1 NH=1 HV=0 eunwind=12
quick: hostb WHAT=1 NH=1 HV=1 eunwind=12
quick: hostc WHAT=1 NH=1 HV=2
quick: hostd WHAT=1 NH=1 HV=3
quick: hoste WHAT=1 NH=1 HV=4
quick: host2a WHAT=1 NH=2 HV=0
quick: host2b WHAT=1 NH=2 HV=1
quick: staropt WHAT=1 T=1 OPT=1
quick: star WHAT=1 T=1
quick: bad WHAT=1 T=2
quick: empty WHAT=1 T=3
quick: expect WHAT=2 unwind=15
outside: header values other than the menu
@*/
#include "inc/vr.h"
#define INS(k, v) li_http_header_insert(req->headers, k, sizeof(k)-1, v, sizeof(v)-1)
void vh_main(void) {
	liConnection *con = vr_con_init(); liVRequest *vr = con->mainvr; liRequest *req = &vr->request;
	gboolean ok; int v11, nhost = 1, keep = 0, close = 0, ssl, ver, s, dots = 0, badhost = 0, badexp = 0, exp100 = 0, star = 0, opt, empty = 0; unsigned i, k;
	li_request_init(req);
	ver = vh_range(0, 2); req->http_version = ver == 0 ? LI_HTTP_VERSION_UNSET : ver == 1 ? LI_HTTP_VERSION_1_0 : LI_HTTP_VERSION_1_1;
	v11 = ver == 2;
	opt = OPT; req->http_method = opt ? LI_HTTP_METHOD_OPTIONS : LI_HTTP_METHOD_PUT;
	con->info.is_ssl = ssl = vh_bool();
#if WHAT == 1
	nhost = NH;
	for (i = 0; i < NH; i++) {
		switch (i ? 0 : HV) {
		case 0: INS("Host", "a.b"); break;
		case 1: INS("host", "aB.b..:80"); dots = 2; break;
		case 2: INS("HOST", "a/b"); badhost = 1; break;
		case 3: INS("Host", "a b"); badhost = 1; break;
		default: INS("Host", ""); empty = 1; break;
		}
	}
	switch (T) {
	case 0: g_string_append(req->uri.raw, "/x"); break;
	case 1: g_string_append(req->uri.raw, "*"); star = 1; break;
	case 2: g_string_append(req->uri.raw, "x"); star = 2; break;
	default: star = 3; break;
	}
#else
	INS("Host", "a");
	g_string_append(req->uri.raw, "/");
#endif
#if WHAT == 0
	for (i = 0; i < NC; i++) {
		switch (vh_range(0, 5)) {
		case 0: INS("Connection", "close"); close = 1; break;
		case 1: INS("Connection", "keep-alive"); keep = 1; break;
		case 2: INS("Connection", "Close"); close = 1; break;
		case 3: INS("connection", "Keep-Alive"); keep = 1; break;
		case 4: INS("Connection", "Upgrade"); break;
		default: break;
		}
	}
#endif
#if WHAT == 2
	for (i = 0; i < 2; i++) {
		switch (vh_range(0, 4)) {
		case 0: INS("Expect", "100-continue"); exp100 = 1; break;
		case 1: INS("expect", "100-Continue"); exp100 = 1; break;
		case 2: INS("Expect", "200-ok"); badexp = 1; break;
		case 3: INS("Expect", "100-continues"); badexp = 1; break;
		default: break;
		}
	}
#endif
	ok = li_request_validate_header(con);
	s = vr->response.http_status;
	if (ver == 0) VH_ASSERT(!ok && s == 505, "an unknown version is 505");
	if (!ok) {
		VH_ASSERT(s >= 400 && s < 600, "a refused request has an error status");
		VH_ASSERT(!con->info.keep_alive, "a refused request closes the connection");
	} else {
		VH_ASSERT(req->content_length == 0, "no body");
		VH_ASSERT(ssl ? (req->uri.scheme->len == 5 && req->uri.scheme->str[4] == 's') : req->uri.scheme->len == 4, "scheme as the connection");
		if (v11) VH_ASSERT((!!con->info.keep_alive) == !close, "HTTP/1.1 stays open unless the client says close");
		else { if (!keep) VH_ASSERT(!con->info.keep_alive, "HTTP/1.0 closes unless keep-alive is asked for"); else if (!close) VH_ASSERT(con->info.keep_alive, "HTTP/1.0 keep-alive"); }
		VH_ASSERT(con->expect_100_cont == (gboolean) exp100, "100-continue is only expected when asked for");
	}
	if (ver && v11 && nhost == 0) VH_ASSERT(!ok && s == 400, "HTTP/1.1 needs a Host");
	if (ver && nhost > 1) VH_ASSERT(!ok && s == 400, "more than one Host is 400");
	if (ver && badhost) VH_ASSERT(!ok && s == 400, "a malformed host is 400");
	if (ver && star == 1 && !opt) VH_ASSERT(!ok && s == 400, "* only for OPTIONS");
	if (ver && (star == 2 || star == 3)) VH_ASSERT(!ok && s == 400, "a malformed or empty target is 400");
	if (badexp) VH_ASSERT(!ok && (ver == 0 || s == 417), "an unknown expectation is 417");
	if (exp100 && ver == 1) VH_ASSERT(!ok && s == 417, "HTTP/1.0 must not expect 100-continue");
	if (ver && nhost <= 1 && !(v11 && (nhost == 0 || empty)) && !badhost && star < 2 && !(star == 1 && !opt) && !badexp && !(exp100 && ver == 1)) VH_ASSERT(ok, "valid requests are accepted");
	if (ok && WHAT == 1) {
		if (nhost && !empty) {
			VH_ASSERT(req->uri.host->len == (dots ? 4 : 3), "host without port and trailing dots");
			k = vh_range(0, 3); if (k < req->uri.host->len) VH_ASSERT(req->uri.host->str[k] == (dots ? "ab.b"[k] : "a.b"[k]), "host bytes in lower case");
		} else VH_ASSERT(req->uri.host->len == 0, "no host");
	}
#if WHAT == 0
	VH_REACH_IF(ok && v11 && con->info.keep_alive, "1.1 keep-alive");
	VH_REACH_IF(ok && !v11 && con->info.keep_alive, "1.0 keep-alive");
	VH_REACH_IF(ok && v11 && !con->info.keep_alive, "1.1 close");
#elif WHAT == 1
#if NH == 0
	VH_REACH_IF(ok, "1.0 without host");
#elif NH == 1 && T == 0 && HV <= 1
	VH_REACH_IF(ok, "host");
#elif NH == 1 && T == 0 && HV == 4
	VH_REACH_IF(ok, "empty host");
#elif T == 1 && OPT
	VH_REACH_IF(ok, "options *");
#endif
#else
	VH_REACH_IF(ok && exp100, "100-continue");
#endif
	VH_REACH_IF(!ok && s == 505, "505");
}
