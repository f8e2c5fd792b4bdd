/*@
prop: C04
src: src/main/http_request_parser.rl
stub: li_chunkqueue_skip li_chunkqueue_skip_all li_chunkqueue_steal_len li_chunkqueue_steal_all li_chunk_parser_reset li_chunk_parser_init li_chunk_parser_prepare li_chunk_parser_next li_chunk_parser_done li_chunk_extract_to li_http_header_insert li_http_method_from_string li_counter_format
light: 1
object-bits: 11
defs: VH_GSTR_CAP=36 SEC=0 N=4 PIECE=0 A=0
unwind: 6
unwindset: li_http_request_parse.4:3
munwind: 5
hunwind: 40
eunwind: 36
cost: 20
quick: start SEC=0 N=5 eunwind=7
quick: method SEC=1 N=3 eunwind=20
quick: uri SEC=2 N=3 eunwind=19
quick: version SEC=3 N=4 eunwind=19
quick: header SEC=4 N=7 eunwind=24
quick: value SEC=5 N=7 eunwind=28
quick: quote SEC=6 N=6 eunwind=27
quick: pieces SEC=4 N=4 PIECE=1 eunwind=3 set=li_http_request_parse.4:20
thorough: start SEC=0 N=7 eunwind=9
thorough: method SEC=1 N=5 eunwind=22
thorough: uri SEC=2 N=5 eunwind=21
thorough: version SEC=3 N=6 eunwind=21
thorough: header SEC=4 N=10 eunwind=27
thorough: value SEC=5 N=10 eunwind=31
thorough: quote SEC=6 N=9 eunwind=30
thorough: pieces SEC=4 N=6 PIECE=1 eunwind=3 set=li_http_request_parse.4:22
outside: more than N arbitrary bytes in the named section of the header; the 64 kB limit
@*/
#if SEC == 0
#define P ""
#define S ""
#elif SEC == 1
#define P ""
#define S " / HTTP/1.1\n\n"
#elif SEC == 2
#define P "GET "
#define S " HTTP/1.0\n\n"
#elif SEC == 3
#define P "GET / HTTP/"
#define S "\n\n"
#elif SEC == 4
#define P "G / HTTP/1.0\r\n"
#define S ""
#elif SEC == 5
#define P "G / HTTP/1.1\nK: v"
#define S ""
#else
#define P "G / HTTP/1.1\nK: \""
#define S ""
#endif
#define PL (sizeof(P)-1)
#define SL (sizeof(S)-1)
#define FQ_N (PL+N+SL+1)
#if PIECE > 1
#define FQ_PIECE(have) ((have) > PIECE ? PIECE : (have))
#elif PIECE
#define FQ_PIECE(have) 1
#else
#define FQ_PIECE(have) (have)
#endif
#if !PIECE
#define FQ_ONCE (A ? 2 : 1)
#endif
#include "inc/flatq.h"
#include <lighttpd/http_request_parser.h>
static unsigned nhdr; static struct { unsigned kl, vl; char kc, vc; } got[4]; static unsigned probe;
static FqBuf snap[4]; static liRequest *m_; static liHttpRequestCtx *c_;
gboolean li_chunk_extract_to(liChunkParserMark from, liChunkParserMark to, GString *dest, GError **err) {
	unsigned n = to.abs_pos - from.abs_pos;
	VH_ASSERT(from.abs_pos >= 0 && from.abs_pos <= to.abs_pos && to.abs_pos <= fq_tail, "pieces are taken from the received header");
	/* a private copy of the received bytes per target string */
	if (dest == m_->http_method_str) { snap[0] = fq_buf; dest->str = (char*) snap[0].b + from.abs_pos; }
	else if (dest == m_->uri.raw) { snap[1] = fq_buf; dest->str = (char*) snap[1].b + from.abs_pos; }
	else if (dest == c_->h_key) { snap[2] = fq_buf; dest->str = (char*) snap[2].b + from.abs_pos; }
	else { snap[3] = fq_buf; dest->str = (char*) snap[3].b + from.abs_pos; }
	dest->str[n] = 0; dest->len = n;
	return TRUE;
}
void li_http_header_insert(liHttpHeaders *headers, const gchar *key, size_t keylen, const gchar *val, size_t valuelen) {
	VH_BOUND(nhdr < 4, "headers");
	got[nhdr].kl = keylen; got[nhdr].vl = valuelen; got[nhdr].kc = probe < keylen ? key[probe] : 0; got[nhdr].vc = probe < valuelen ? val[probe] : 0; nhdr++;
}
static unsigned mlen; static char mc;
liHttpMethod li_http_method_from_string(const gchar *s, gssize l) { mlen = l; mc = probe < l ? s[probe] : 0; return LI_HTTP_METHOD_POST; }
GString* li_counter_format(guint64 c, liCounterType t, GString *d) { return d; }
/* reference, one byte at a time */
enum { S0, S0CR, METHOD, URI0, URI, VER, VCRLF, HSTART, HEND, KEY, VAL0, VAL, VCR, VLF, Q, QP, QCR, QLF, DONE, ERR };
static unsigned st, pos, vi, d1, maj, min, mj2, mn2, ms, me, us, ue; static unsigned rn; static struct { unsigned ks, ke, vs, ve; } rh[4];
static int ctl(unsigned char c) { return c < 32 || c == 127; }
static int sep(unsigned char c) { return c == '(' || c == ')' || c == '<' || c == '>' || c == '@' || c == ',' || c == ';' || c == ':' || c == '\\' || c == '"' || c == '/' || c == '[' || c == ']' || c == '?' || c == '=' || c == '{' || c == '}' || c == ' ' || c == '\t'; }
static int tok(unsigned char c) { return !ctl(c) && !sep(c); }
static int dgt(unsigned char c) { return c >= '0' && c <= '9'; }
static unsigned vst; /* version: 0-4 "HTTP/", 5 first digit, 6 more digits or '.', 7 digit, 8 more digits or end of line */
static void feed(unsigned char c) {
	unsigned i = pos; static const char kw[] = "HTTP/";
	if (st == DONE || st == ERR) return;
	pos++;
	if (st == VLF) { if (c == ' ' || c == '\t') { st = VAL; return; } rh[rn].ve = i; rn++; st = HSTART; }
	switch (st) {
	case S0: if (c == '\r') st = S0CR; else if (c == '\n') ; else if (tok(c)) { ms = i; st = METHOD; } else st = ERR; break;
	case S0CR: st = c == '\n' ? S0 : ERR; break;
	case METHOD: if (c == ' ') { me = i; st = URI0; } else if (!tok(c)) st = ERR; break;
	case URI0: if (ctl(c) || c == ' ') st = ERR; else { us = i; st = URI; } break;
	case URI: if (c == ' ') { ue = i; st = VER; } else if (ctl(c)) st = ERR; break;
	case VER:
		if (vst < 5) { if (c != kw[vst]) st = ERR; else vst++; }
		else if (vst == 5) { if (dgt(c)) { vst = 6; maj = c - '0'; } else st = ERR; }
		else if (vst == 6) { if (c == '.') vst = 7; else if (dgt(c)) mj2 = 1; else st = ERR; }
		else if (vst == 7) { if (dgt(c)) { vst = 8; min = c - '0'; } else st = ERR; }
		else { if (dgt(c)) mn2 = 1; else if (c == '\r') st = VCRLF; else if (c == '\n') st = HSTART; else st = ERR; }
		break;
	case VCRLF: st = c == '\n' ? HSTART : ERR; break;
	case HSTART: if (c == '\r') st = HEND; else if (c == '\n') st = DONE; else if (tok(c)) { rh[rn].ks = i; st = KEY; } else st = ERR; break;
	case HEND: st = c == '\n' ? DONE : ERR; break;
	case KEY: if (c == ':') { rh[rn].ke = i; st = VAL0; } else if (!tok(c)) st = ERR; break;
	case VAL0: if (c == ' ' || c == '\t') break; rh[rn].vs = i; st = VAL; /* fall through */
	case VAL: if (c == '"') st = Q; else if (c == '\r') st = VCR; else if (c == '\n') st = VLF; else if (ctl(c) && c != '\t') st = ERR; break;
	case VCR: st = c == '\n' ? VLF : ERR; break;
	case Q: if (c == '"') st = VAL; else if (c == '\\') st = QP; else if (c == '\r') st = QCR; else if (c == '\n') st = QLF; else if (ctl(c) && c != '\t') st = ERR; break;
	case QP: st = ctl(c) || c > 127 ? ERR : Q; break;
	case QCR: st = c == '\n' ? QLF : ERR; break;
	case QLF: st = c == ' ' || c == '\t' ? Q : ERR; break;
	}
}
void vh_main(void) {
	static liHttpRequestCtx ctx; static liRequest req; static liVRequest vr; unsigned i, j, a; liHandlerResult r;
	probe = vh_range(0, 7); m_ = &req; c_ = &ctx;
	req.http_method_str = g_string_sized_new(0); req.uri.raw = g_string_sized_new(0);
	for (i = 0; i < PL; i++) { fq_b[i] = P[i]; feed(P[i]); }
	for (i = 0; i < N; i++) fq_b[PL+i] = vh_u8();
	for (i = 0; i < SL; i++) fq_b[PL+N+i] = S[i];
	li_http_request_parser_init(&ctx, &req, &fq_in);
#if A
	fq_tail = PL; fq_sync();
	r = li_http_request_parse(&vr, &ctx);
	VH_ASSERT(r == LI_HANDLER_WAIT_FOR_EVENT, "waits for more");
	for (i = 0; i < A; i++) feed(fq_b[PL+i]);
	fq_tail = PL + A; fq_sync();
	r = li_http_request_parse(&vr, &ctx);
	VH_ASSERT(r == (st == DONE ? LI_HANDLER_GO_ON : st == ERR ? LI_HANDLER_ERROR : LI_HANDLER_WAIT_FOR_EVENT), "first part: complete, malformed or incomplete");
	if (r != LI_HANDLER_WAIT_FOR_EVENT) return;
#endif
	for (i = A; i < N; i++) feed(fq_b[PL+i]);
	for (i = 0; i < SL; i++) feed(S[i]);
	fq_tail = PL + N + SL; fq_sync();
	r = li_http_request_parse(&vr, &ctx);
	if (st == DONE) {
		VH_ASSERT(r == LI_HANDLER_GO_ON, "a complete, well-formed header is accepted");
		VH_ASSERT(fq_head == pos, "exactly the header is consumed; what follows belongs to the body or next request");
		VH_ASSERT(mlen == me - ms && (probe >= mlen || mc == (char) fq_b[ms + probe]), "method");
		VH_ASSERT(req.uri.raw->len == ue - us && (probe >= req.uri.raw->len || req.uri.raw->str[probe] == (char) fq_b[us + probe]), "request target");
		VH_ASSERT(req.http_version == (!mj2 && !mn2 && maj == 1 && min == 0 ? LI_HTTP_VERSION_1_0 : !mj2 && !mn2 && maj == 1 && min == 1 ? LI_HTTP_VERSION_1_1 : LI_HTTP_VERSION_UNSET), "version");
		VH_ASSERT(nhdr == rn, "every header line becomes one header");
		for (j = 0; j < 2; j++) if (j < rn) {
			unsigned e = rh[j].ve;
			for (i = FQ_N; i-- > 0; ) if (i + 1 == e && i >= rh[j].vs && (fq_b[i] == ' ' || fq_b[i] == '\r' || fq_b[i] == '\n')) e = i;
			VH_ASSERT(got[j].kl == rh[j].ke - rh[j].ks && (probe >= got[j].kl || got[j].kc == (char) fq_b[rh[j].ks + probe]), "header name");
			VH_ASSERT(got[j].vl == e - rh[j].vs && (probe >= got[j].vl || got[j].vc == (char) fq_b[rh[j].vs + probe]), "header value without surrounding white space");
		}
	} else if (st == ERR) VH_ASSERT(r == LI_HANDLER_ERROR, "a malformed header is refused");
	else { VH_ASSERT(r == LI_HANDLER_WAIT_FOR_EVENT, "an incomplete header waits for more"); VH_ASSERT(fq_head == 0, "nothing is consumed before the header is complete"); }
#if SEC != 0
	VH_REACH_IF(st == DONE, "complete");
#endif
	VH_REACH_IF(st == ERR, "malformed");
#if SEC == 0 || SEC >= 4
	VH_REACH_IF(st != ERR && st != DONE, "incomplete");
#endif
#if SEC == 4
	VH_REACH_IF(st == DONE && rn == 1, "header");
#endif
#if SEC == 5
	VH_REACH_IF(st == DONE && got[0].vl > 3, "folded");
#endif
}
