/*@
prop: C20
src: src/main/stream_http_response.c src/main/http_headers.c
stub: li_chunkqueue_skip li_chunkqueue_skip_all li_chunkqueue_steal_len li_chunkqueue_steal_all li_chunk_parser_reset li_chunk_parser_init li_chunk_parser_prepare li_chunk_parser_next li_chunk_parser_done li_stream_init li_stream_connect li_stream_disconnect li_stream_disconnect_dest li_stream_reset li_stream_notify li_stream_release li_stream_acquire li_vrequest_error li_vrequest_indirect_headers_ready li_vrequest_connection_upgrade li_http_response_parse li_http_response_parser_init li_http_response_parser_clear li_filter_chunked_decode
union-as-struct: 1
light: 1
defs: VH_GSTR_CAP=40 NCL=0 NTE=0 VL=2 CON=0 UPG=0 BIG=0
unwind: 6
munwind: 24
hunwind: 24
eunwind: 6
unwindset: g_ascii_strcasecmp.0:12 _http_header_sanitize.0:28 li_http_header_tokenizer_next.0:4
quick: none
quick: ka CON=1
quick: close CON=2
quick: cl NCL=1
quick: clka NCL=1 CON=1
quick: clclose NCL=1 CON=2
quick: big NCL=1 BIG=1 set=strlen.0:24
quick: te1 NTE=1
quick: te2 NTE=2
quick: clte NCL=1 NTE=1 VL=1
quick: upg UPG=1 CON=3
quick: upgte UPG=1 CON=3 NTE=1
thorough: cl3 NCL=1 VL=4
thorough: clka NCL=1 CON=1 VL=3
thorough: clclose NCL=1 CON=2 VL=3
thorough: te3 NTE=3
thorough: clte2 NCL=1 NTE=2 VL=2
thorough: upg UPG=1 CON=3
outside: Content-Length values longer than VL bytes (plus the 2^63 boundary), repeated Content-Length headers, transfer codings and Connection values outside the menu, more than two deliveries of body data
@*/
#define FQ_N 6
#include "inc/vr.h"
#include "inc/flatq.h"
#include <lighttpd/stream_http_response.h>
static liStream *s; static liStream src; static int err, ready, upgraded, aborted, decoded, decode_ok, decode_close, ver, status;
void li_stream_init(liStream* stream, liEventLoop *loop, liStreamCB cb) { s = stream; stream->refcount = 1; stream->source = stream->dest = NULL; stream->out = &fq_out; stream->cb = cb; }
void li_stream_connect(liStream *source, liStream *dest) { dest->source = source; }
void li_stream_acquire(liStream *x) { } void li_stream_release(liStream *x) { }
void li_stream_disconnect(liStream *x) { if (x->source) { x->source = NULL; x->cb(x, LI_STREAM_DISCONNECTED_SOURCE); } }
void li_stream_disconnect_dest(liStream *x) { aborted = 1; }
void li_stream_reset(liStream *x) { li_stream_disconnect(x); aborted = 1; }
void li_stream_notify(liStream *x) { }
void li_vrequest_error(liVRequest *vr) { err = 1; li_stream_disconnect(s); }
void li_vrequest_indirect_headers_ready(liVRequest *vr) { VH_ASSERT(!ready, "headers are handed on once"); ready = 1; }
void li_vrequest_connection_upgrade(liVRequest *vr, liStream *drain, liStream *source) { upgraded = 1; }
void li_http_response_parser_init(liHttpResponseCtx* ctx, liResponse *req, liChunkQueue *cq, gboolean a, gboolean b) { ctx->response = req; ctx->http_version = ver; }
void li_http_response_parser_clear(liHttpResponseCtx *ctx) { }
liHandlerResult li_http_response_parse(liVRequest *vr, liHttpResponseCtx *ctx) { ctx->http_version = ver; vr->response.http_status = status; return LI_HANDLER_GO_ON; }
gboolean li_filter_chunked_decode(liVRequest *vr, liChunkQueue *out, liChunkQueue *in, liFilterChunkedDecodeState *st) { decoded++; if (decode_ok && decode_close) out->is_closed = TRUE; return decode_ok; }
#define INS(k, v) li_http_header_insert(vr->response.headers, k, sizeof(k)-1, v, sizeof(v)-1)
#if UPG
#define REACH_U VH_REACH("upgrade")
#else
#define REACH_U
#endif
#if NTE && !UPG
#define REACH_C VH_REACH("chunked")
#else
#define REACH_C
#endif
#if NCL && !UPG && !NTE
#define REACH_S VH_REACH("cut short")
#else
#define REACH_S
#endif
#if !UPG && !BIG
#define REACH_W VH_REACH("until close")
#else
#define REACH_W
#endif
void vh_main(void) {
	static liConInfo info; liVRequest *vr = vr_init(&info); static liStream drain; static liChunkQueue drainq; unsigned i, n1, n2, j, close1, close2, k; unsigned char d[6];
	long clv = -1; int clbad = 0, nch = 0, badte = 0, keepalive, bad, waitclose = 0, chunked, coupg = 0;
	vr->backend_drain = &drain; drain.out = &drainq; src.out = &fq_in;
	li_response_init(&vr->response); status = 200;
	if (CON == 1) INS("Connection", "keep-alive"); else if (CON == 2) INS("Connection", "close"); else if (CON == 3) { INS("Connection", "x, upgrade"); coupg = 1; }
	if (UPG) { INS("Upgrade", "ws"); status = vh_bool() ? 101 : 200; }
	for (i = 0; i < NCL; i++) {
#if BIG
		char v[21] = "9223372036854775800"; unsigned n = 19; int bd; v[17] = vh_u8(); VH_ASSUME(v[17] >= '0' && v[17] <= '9'); v[18] = vh_u8(); VH_ASSUME(v[18] >= '0' && v[18] <= '9'); bd = v[17] > '0' || v[18] > '7'; VH_ASSUME(v[17] != '0' || v[18] != '7'); clbad |= bd;
		clv = bd ? 0 : 9223372036854775800L + (v[18] - '0');
#else
		char v[VL+1]; unsigned n = vh_range(1, VL); long x = 0; int bd = 0, sp = 0;
		for (j = 0; j < VL; j++) { v[j] = (char) vh_u8(); VH_ASSUME(v[j] > 32 && v[j] != 127 && v[j] != '+'); if (j < n) { if (v[j] < '0' || v[j] > '9') { bd = 1; if (j == 0 && v[j] == '-') sp = 1; } else x = x * 10 + (v[j] - '0'); } }
		VH_ASSUME(!(sp && x == 0)); /* "-0" */
		v[n] = 0; clbad |= bd; clv = x;
#endif
		li_http_header_insert(vr->response.headers, "Content-Length", 14, v, n);
	}
	for (i = 0; i < NTE; i++) switch (vh_range(0, 3)) {
		case 0: INS("Transfer-Encoding", "chunked"); nch++; break;
		case 1: INS("transfer-encoding", "Chunked"); nch++; break;
		case 2: INS("Transfer-Encoding", "identity"); break;
		default: INS("Transfer-Encoding", "gzip"); badte = 1; break;
	}
	keepalive = vh_bool(); ver = vh_bool() ? LI_HTTP_VERSION_1_1 : LI_HTTP_VERSION_1_0;
	decode_ok = vh_bool(); decode_close = vh_bool();
	for (i = 0; i < 6; i++) d[i] = vh_u8();
	n1 = vh_range(0, 3); n2 = vh_range(0, 3); close1 = vh_bool(); close2 = vh_bool(); VH_ASSUME(!close1 || (!n2 && close2));
	if (UPG || nch || BIG) VH_ASSUME(n1 == 2 && n2 == 0 && !close1 && !close2);
	chunked = nch > 0;
	bad = badte || nch > 1 || (UPG && (status != 101 || !coupg || chunked));
	if (!bad && !UPG && !chunked) {
		if (!keepalive) waitclose = 1;
		else if (NCL) { if (clbad) bad = 1; }
		else if (ver == LI_HTTP_VERSION_1_1 || CON != 1) waitclose = 1;
		else bad = 1;
	}
	if (!li_stream_http_response_handle(&src, vr, FALSE, FALSE, keepalive)) return;
	for (i = 0; i < 3; i++) if (i < n1) fq_put(d[i]);
	fq_in.is_closed = close1;
	s->cb(s, LI_STREAM_NEW_DATA);
	VH_ASSERT(!!err == (bad || (chunked && !decode_ok)), "a response with ambiguous or unsupported framing is an error, others are not");
	VH_ASSERT(!(ready && bad), "headers of a bad response are not used");
	if (err) return;
	VH_ASSERT(UPG ? upgraded : ready && !upgraded, "headers are handed on");
	if (UPG) { VH_ASSERT(fq_on == n1 && !fq_out.is_closed, "upgraded data is passed on"); REACH_U; return; }
	VH_ASSERT(!li_http_header_lookup(vr->response.headers, "transfer-encoding", 17), "transfer coding of the backend is not forwarded");
	if (chunked) {
		VH_ASSERT(!li_http_header_lookup(vr->response.headers, "content-length", 14), "chunked overrides Content-Length");
		VH_ASSERT(decoded == 1 && fq_on == 0, "chunked bodies are decoded"); REACH_C; return;
	}
	VH_ASSERT(!decoded, "other bodies are not decoded");
	/* second delivery */
	for (i = 0; i < 3; i++) if (i < n2) fq_put(d[n1 + i]);
	fq_in.is_closed = close2;
	if (s->source) s->cb(s, LI_STREAM_NEW_DATA);
	k = n1 + n2;
	if (waitclose) {
		VH_ASSERT(fq_on == k && fq_out.is_closed == (gboolean) close2, "without length the body lasts until the backend closes");
		REACH_W;
	} else {
		unsigned e = clv >= 0 && k > (unsigned long) clv ? clv : k;
		VH_ASSERT(fq_on == e, "exactly Content-Length bytes are the body");
		VH_ASSERT((!!fq_out.is_closed) == (e == clv), "the body ends after Content-Length bytes, not earlier or later");
		VH_ASSERT(s->source == NULL || !fq_out.is_closed, "a finished response is disconnected from the backend");
		if (!fq_out.is_closed && s->source) { li_stream_disconnect(s); VH_ASSERT(aborted && !fq_out.is_closed, "a body cut short is an abort"); REACH_S; }
#if NCL && !BIG
		VH_REACH_IF(fq_out.is_closed && clv > 1 && k > clv, "length");
#endif
	}
	k = vh_range(0, 5); if (k < fq_on) VH_ASSERT(fq_o[k] == d[k], "body bytes are unchanged and in order");
}
