/*@
prop: C05
src: src/main/request.c src/main/http_headers.c src/main/url_parser.rl src/common/utils.c
union-as-struct: 1
light: 1
defs: VH_GSTR_CAP=40 NCL=0 NTE=0 VL=3 BIG=0
unwind: 5
munwind: 40
hunwind: 5
eunwind: 5
unwindset: li_string_assign_len.0:20
quick: none
quick: cl1 NCL=1
quick: cl2 NCL=2 VL=2
quick: big NCL=1 VL=2 BIG=1 set=li_http_header_insert.0:24 eunwind=24
quick: te1 NTE=1 unwind=13
quick: te2 NTE=2 unwind=13
quick: cl1te1 NCL=1 NTE=1 VL=2 unwind=13
thorough: none
thorough: cl1 NCL=1 VL=6
thorough: cl2 NCL=2 VL=3
thorough: cl3 NCL=3 VL=2
thorough: te3 NTE=3
thorough: cl1te1 NCL=1 NTE=1 VL=3
thorough: cl2te1 NCL=2 NTE=1 VL=2
outside: Content-Length values longer than VL bytes, more headers than NCL/NTE, transfer codings other than the menu
@*/
#include "inc/vr.h"
#define TEN 5
static const char *const te_menu[TEN] = { "chunked", "Chunked", "identity", "gzip", "gzip, chunked" };
void vh_main(void) {
	liConnection *con = vr_con_init(); liVRequest *vr = con->mainvr; liRequest *req = &vr->request;
	static const liHttpMethod methods[6] = { LI_HTTP_METHOD_GET, LI_HTTP_METHOD_HEAD, LI_HTTP_METHOD_POST, LI_HTTP_METHOD_PUT, LI_HTTP_METHOD_OPTIONS, LI_HTTP_METHOD_UNSET };
	unsigned i, j, m; gboolean ok; int strict; long expect = -2; int reject = 0, nchunked = 0, badte = 0, bodyless;
	long clv = -1; int clbad = 0, cldiff = 0;
	li_request_init(req);
	req->http_version = LI_HTTP_VERSION_1_1;
	m = vh_range(0, 5); req->http_method = methods[m];
	g_string_append(req->uri.raw, "/");
	strict = vh_bool(); vr_options[LI_CORE_OPTION_STRICT_POST_CONTENT_LENGTH].boolean = strict;
	li_http_header_insert(req->headers, "Host", 4, "a", 1);
	for (i = 0; i < NCL; i++) {
#if BIG
		char w[18+VL+1] = "922337203685477580", *v = w + 18; long x = 922337203685477580L; unsigned n = vh_range(0, VL); int bad = 0;
		for (j = 0; j < VL; j++) { v[j] = (char) vh_u8(); VH_ASSUME(v[j] >= 32 && v[j] != 127); if (j < n) { if (v[j] < '0' || v[j] > '9' || j || v[j] > '7') bad = 1; else x = x * 10 + (v[j] - '0'); } }
		VH_ASSUME(n == 0 || v[0] != '7'); /* exactly 2^63-1 may be accepted or refused */
		v[n] = 0; n += 18; v = w;
#else
		char v[VL+1]; unsigned n = vh_range(0, VL); long x = 0; int bad = (n == 0);
		for (j = 0; j < VL; j++) { v[j] = (char) vh_u8(); VH_ASSUME(v[j] >= 32 && v[j] != 127); if (j < n) { if (v[j] < '0' || v[j] > '9') bad = 1; else x = x * 10 + (v[j] - '0'); } }
		v[n] = 0;
#endif
		li_http_header_insert(req->headers, i & 1 ? "content-length" : "Content-Length", 14, v, n);
		if (bad) clbad = 1; else { if (clv != -1 && clv != x) cldiff = 1; clv = x; }
	}
	for (i = 0; i < NTE; i++) {
		unsigned k = vh_range(0, TEN-1);
		switch (k) { /* concrete strings per branch */
		case 0: li_http_header_insert(req->headers, "Transfer-Encoding", 17, te_menu[0], 7); nchunked++; break;
		case 1: li_http_header_insert(req->headers, "Transfer-Encoding", 17, te_menu[1], 7); nchunked++; break;
		case 2: li_http_header_insert(req->headers, "Transfer-Encoding", 17, te_menu[2], 8); break;
		case 3: li_http_header_insert(req->headers, "Transfer-Encoding", 17, te_menu[3], 4); badte = 1; break;
		default: li_http_header_insert(req->headers, "Transfer-Encoding", 17, "gzip, chunk", 11); badte = 1; break;
		}
	}
	bodyless = (req->http_method == LI_HTTP_METHOD_GET || req->http_method == LI_HTTP_METHOD_HEAD);
	reject = clbad || cldiff || badte || nchunked > 1;
	if (!reject) {
		if (bodyless) { if (nchunked || clv > 0) reject = 1; else expect = 0; }
		else if (nchunked) expect = -1;
		else if (clv >= 0) expect = clv;
		else if (req->http_method == LI_HTTP_METHOD_POST && strict) reject = 1;
		else expect = 0;
	}
	ok = li_request_validate_header(con);
	if (!clbad && !cldiff) VH_ASSERT(ok || reject, "a request with unambiguous framing is accepted");
	if (clbad) VH_ASSERT(!ok, "a malformed Content-Length is rejected");
	if (cldiff) VH_ASSERT(!ok, "conflicting Content-Length headers are rejected");
	if (badte) VH_ASSERT(!ok, "an unsupported transfer coding is rejected");
	if (nchunked > 1) VH_ASSERT(!ok, "chunked must not be applied twice");
	if (bodyless && (nchunked || clv > 0)) VH_ASSERT(!ok, "GET and HEAD with a body are rejected");
	VH_ASSERT(!(ok && reject), "ambiguous or unsupported framing is rejected");
	if (ok) VH_ASSERT(req->content_length == expect, "the body length used is the one the client declared");
	else {
		int s = vr->response.http_status;
		VH_ASSERT(s == 400 || s == 411 || s == 413 || s == 501, "a rejected request has a client error status");
		VH_ASSERT(!con->info.keep_alive, "the connection is closed after a rejected request");
		if (badte && !clbad && !cldiff && !nchunked) VH_ASSERT(s == 501, "unsupported transfer coding is 501");
	}
#if NCL > 0
	VH_REACH_IF(ok && expect >= 10, "two digit length");
#endif
#if NTE > 0
	VH_REACH_IF(ok && expect == -1, "chunked");
#endif
#if !BIG
	VH_REACH_IF(ok && expect == 0, "no body");
#endif
	VH_REACH_IF(!ok, "rejected");
}
