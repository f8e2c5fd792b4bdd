/*@
prop: C14
src: src/main/response.c src/main/http_headers.c src/main/chunk.c src/common/buffer.c src/common/utils.c src/main/lighttpd_glue.c
wrap: pread open close unlink posix_fadvise mmap munmap madvise
stub: li_event_io_rem_events li_event_io_add_events li_worker_current_timestamp li_http_status_string
union-as-struct: 1
light: 1
defs: VH_GSTR_CAP=110 BODY=1 HDR=0 V11=1 KA=1 VH_ARR_CAP=4
cbmc: --max-field-sensitivity-array-size 256
unwind: 6
munwind: 40
hunwind: 112
eunwind: 24
unwindset: _http_header_sanitize.0:32
quick: empty111 BODY=0 V11=1 KA=1 HDR=1
quick: empty110 BODY=0 V11=1 KA=1 HDR=0
quick: empty101 BODY=0 V11=1 KA=0 HDR=1
quick: empty011 BODY=0 V11=0 KA=1 HDR=1
quick: full111 BODY=1 V11=1 KA=1 HDR=1
quick: full110 BODY=1 V11=1 KA=1 HDR=0
quick: full101 BODY=1 V11=1 KA=0 HDR=1
quick: full011 BODY=1 V11=0 KA=1 HDR=1
quick: full001 BODY=1 V11=0 KA=0 HDR=1
quick: open111 BODY=2 V11=1 KA=1 HDR=1
quick: open110 BODY=2 V11=1 KA=1 HDR=0
quick: open101 BODY=2 V11=1 KA=0 HDR=1
quick: open011 BODY=2 V11=0 KA=1 HDR=1
quick: open001 BODY=2 V11=0 KA=0 HDR=1
quick: none111 BODY=3 V11=1 KA=1 HDR=1
quick: none110 BODY=3 V11=1 KA=1 HDR=0
quick: none101 BODY=3 V11=1 KA=0 HDR=1
quick: none011 BODY=3 V11=0 KA=1 HDR=1
outside: the generated error page (status 400..599 without body), its length is checked in error cases
@*/
#include "inc/vr.h"
#include "inc/cq.h"
static GString *ts;
GString* li_worker_current_timestamp(liWorker *wrk, liTimeFunc f, guint n) { return ts; }
gchar* li_http_status_string(guint status_code, guint *len) { *len = 1; return "S"; }
#define INS(k, v) li_http_header_insert(vr->response.headers, k, sizeof(k)-1, v, sizeof(v)-1)
static int at(const char *h, unsigned n, unsigned q, const char *s, unsigned l) { unsigned i; int ok = q + l <= n; for (i = 0; i < l; i++) if (h[q+i] != s[i]) ok = 0; return ok; }
#define AT(s) at(h, n, q, s, sizeof(s)-1)
void vh_main(void) {
	static liConInfo info; liVRequest *vr = vr_init(&info); static liOptionPtrValue tag; liChunkQueue *raw = li_chunkqueue_new(), *body = NULL; const char *h; unsigned n, q;
	unsigned ncl = 0, nte = 0, ncon = 0, nclose = 0, nka = 0, nupg = 0, nblank = 0, ndate = 0, nx = 0, blank = 0, clv = 0, pcl = 0, pte = 0, pcon = 0, pd = 0, px = 0;
	int head, v11 = V11, ka = KA, hadcl = HDR, upgraded = 0, ST, bodyless, complete; unsigned blen = 0;
	ts = g_string_new("D"); tag.data.string = g_string_new(""); vr_optionptrs[LI_CORE_OPTION_SERVER_TAG] = &tag;
	vr_wrk.tmp_str = g_string_sized_new(31);
	li_response_init(&vr->response);
	if (BODY != 3) { body = li_chunkqueue_new(); if (BODY) { li_chunkqueue_append_mem(body, "abc", 3); blen = 3; } body->is_closed = BODY != 2; }
	INS("X-A", "1"); INS("Connection", "x");
	if (hadcl) INS("Content-Length", "9");
	head = vh_bool(); vr->request.http_method = head ? LI_HTTP_METHOD_HEAD : LI_HTTP_METHOD_GET;
	vr->request.http_version = v11 ? LI_HTTP_VERSION_1_1 : LI_HTTP_VERSION_1_0;
	info.keep_alive = ka;
	ST = vh_range(100, 999); VH_ASSUME(BODY == 1 || BODY == 2 || ST < 400 || ST >= 600); vr->response.http_status = ST;
	if (ST == 101 && BODY == 3) upgraded = vh_bool();
	li_response_send_headers(vr, raw, body, upgraded);
	VH_ASSERT(raw->length > 0 && raw->queue.head, "a header is sent");
	{ liChunk *c = raw->queue.head->data; h = c->data.str->str; n = c->data.str->len; VH_ASSERT(c->type == STRING_CHUNK && c->offset == 0, "header is one string"); }
	q = 0;
	VH_ASSERT(v11 ? AT("HTTP/1.1 ") : AT("HTTP/1.0 "), "version as the request");
	VH_ASSERT(h[9] == '0' + ST / 100 && h[10] == '0' + ST / 10 % 10 && h[11] == '0' + ST % 10 && h[12] == ' ', "status line");
	for (q = 1; q < VH_GSTR_CAP - 24; q++) if (q < n && h[q-1] == '\n' && !blank) {
		char c = h[q], d = h[q+3];
		VH_ASSERT(h[q-2] == '\r', "lines end in CRLF");
		if (c == '\r') blank = q;
		else if (c == 'C' && d == 't') { ncl++; clv = h[q+16] - '0'; pcl = q; }
		else if (c == 'C' && d == 'n') { ncon++; nclose += h[q+12] == 'c'; nka += h[q+12] == 'k'; nupg += h[q+12] == 'U'; pcon = q; }
		else if (c == 'T') { nte++; pte = q; }
		else if (c == 'D') { ndate++; pd = q; }
		else if (c == 'X') { nx++; px = q; }
		else VH_ASSERT(0, "no unknown header line");
	}
	if (ncl) { q = pcl; VH_ASSERT(AT("Content-Length: ") && h[q+17] == '\r', "Content-Length line"); }
	if (nte) { q = pte; VH_ASSERT(AT("Transfer-Encoding: chunked\r\n"), "Transfer-Encoding line"); }
	if (ncon) { q = pcon; VH_ASSERT(nclose ? AT("Connection: close\r\n") : nka ? AT("Connection: keep-alive\r\n") : AT("Connection: Upgrade\r\n"), "Connection line"); }
	if (ndate) { q = pd; VH_ASSERT(AT("Date: D\r\n"), "Date line"); }
	if (nx) { q = px; VH_ASSERT(AT("X-A: 1\r\n"), "header line"); }
	VH_ASSERT(blank && blank + 2 == n, "the header ends with exactly one empty line");
	VH_ASSERT(ndate == 1 && nx == 1, "response headers and date are sent once");
	bodyless = ST == 204 || ST == 205 || ST == 304 || ST < 200; complete = body && body->is_closed;
	VH_ASSERT(ncl <= 1 && nte <= 1, "at most one framing header");
	VH_ASSERT(!(ncl && nte), "never both Content-Length and Transfer-Encoding");
	VH_ASSERT((nte == 1) == ((vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED) != 0), "chunked is announced exactly if it is used");
	if (bodyless) {
		VH_ASSERT(nte == 0, "no chunked coding without a body");
		if (body) VH_ASSERT(body->length == 0, "a response without body sends none");
	}
	if (!bodyless && !head && !upgraded) {
		if (complete) VH_ASSERT(ncl == 1 && clv == blen && nte == 0, "the Content-Length of a complete response is its length");
		else VH_ASSERT(nte || !info.keep_alive, "without length or chunks the response ends with the connection");
		if (body) VH_ASSERT(body->length == blen, "the body follows");
		VH_ASSERT(!raw->is_closed, "the body follows");
	}
	if (head && body) VH_ASSERT(body->length == 0, "no body for HEAD");
	if ((head || bodyless) && !upgraded) VH_ASSERT(raw->is_closed, "nothing follows the header");
	if (!v11) VH_ASSERT(nte == 0, "no chunks for HTTP/1.0");
	VH_ASSERT(!(info.keep_alive && !ka), "keep-alive is not turned on");
	if (!upgraded) {
		if (v11) VH_ASSERT(info.keep_alive ? ncon == 0 : nclose == 1 && ncon == 1, "HTTP/1.1: close is announced exactly if the connection closes");
		else VH_ASSERT(info.keep_alive ? nka == 1 && ncon == 1 : ncon == 0, "HTTP/1.0: keep-alive is announced exactly if the connection stays open");
		if (ka && (complete || bodyless)) VH_ASSERT(info.keep_alive, "the connection stays open if the client can see the end");
	} else VH_ASSERT(nupg == 1 && ncon == 1, "upgrade is announced");
	VH_REACH_IF(head, "head"); VH_REACH_IF(!head && ST == 200, "ok"); VH_REACH_IF(bodyless, "bodyless");
#if BODY >= 2
#if V11 && KA
	VH_REACH_IF(nte == 1, "chunked");
#elif KA
	VH_REACH_IF(!info.keep_alive, "close");
#endif
#else
	VH_REACH_IF(ncl == 1, "length");
#endif
}
