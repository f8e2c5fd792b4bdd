/*@
prop: C19
src: src/main/http_response_parser.rl src/common/utils.c
stub: li_chunkqueue_skip li_chunkqueue_skip_all li_chunkqueue_steal_len li_chunkqueue_steal_all li_chunk_parser_reset li_chunk_parser_init li_chunk_parser_prepare li_chunk_parser_next li_chunk_parser_done li_chunk_extract_to li_http_header_insert
light: 1
object-bits: 11
defs: VH_GSTR_CAP=36 SEC=0 N=4 PIECE=0 CGI=0
unwind: 6
unwindset: li_http_response_parse.4:3 g_ascii_strncasecmp.0:8 strtol.0:8 li_http_response_parse.0:9 li_http_response_parse.1:9 li_http_response_parse.2:9
munwind: 5
hunwind: 48
eunwind: 36
cost: 20
quick: start SEC=0 N=6 eunwind=8
quick: startcgi SEC=0 N=6 CGI=1 eunwind=8
quick: version SEC=1 N=4 eunwind=18
quick: status SEC=2 N=5 eunwind=18
quick: header SEC=3 N=7 eunwind=25
quick: value SEC=4 N=7 eunwind=28
quick: quote SEC=5 N=6 eunwind=12
quick: cgi SEC=6 CGI=1 N=4 eunwind=16
quick: nocgi SEC=6 N=3 eunwind=15
quick: cgiline SEC=3 CGI=1 N=4 eunwind=22
quick: pieces SEC=3 N=3 PIECE=1 eunwind=3 set=li_http_response_parse.4:24
quick: interim SEC=7 N=4 eunwind=39
thorough: start SEC=0 N=8 eunwind=10
thorough: startcgi SEC=0 N=8 CGI=1 eunwind=10
thorough: version SEC=1 N=6 eunwind=20
thorough: status SEC=2 N=7 eunwind=20
thorough: header SEC=3 N=10 eunwind=28
thorough: value SEC=4 N=10 eunwind=31
thorough: quote SEC=5 N=9 eunwind=15
thorough: cgi SEC=6 CGI=1 N=7 eunwind=19
thorough: nocgi SEC=6 N=6 eunwind=18
thorough: pieces SEC=3 N=6 PIECE=1 eunwind=3 set=li_http_response_parse.4:26
thorough: interim SEC=7 N=6 eunwind=41
outside: more than N arbitrary bytes in the named section of the header; more than one interim response
@*/
#if SEC == 0
#define P ""
#define S ""
#elif SEC == 1
#define P "HTTP/"
#define S " 200 \n\n"
#elif SEC == 2
#define P "HTTP/1.1 "
#define S "\n\n"
#elif SEC == 3
#define P "HTTP/1.0 200 O\r\n"
#define S ""
#elif SEC == 4
#define P "HTTP/1.0 200 O\nK: v"
#define S ""
#elif SEC == 5
#define P "K: \""
#define S ""
#elif SEC == 6
#define P "StatuS: "
#define S "\n\n"
#else
#define P "HTTP/1.1 100 C\nA: b\n\nHTTP/1.1 "
#define S "\n\n"
#endif
#define PL (sizeof(P)-1)
#define SL (sizeof(S)-1)
#define FQ_N (PL+N+SL+1)
#if PIECE
#define FQ_PIECE(have) 1
#else
#define FQ_PIECE(have) (have)
#define FQ_ONCE (SEC == 7 ? 2 : 1)
#endif
#define FQ_PREP
#include "inc/flatq.h"
#include <lighttpd/http_response_parser.h>
static unsigned nhdr; static struct { unsigned kl, vl; char kc, vc; } got[4]; static unsigned probe;
static FqBuf snap[4]; static liHttpResponseCtx *c_;
gboolean li_chunk_extract_to(liChunkParserMark from, liChunkParserMark to, GString *dest, GError **err) {
	unsigned n = to.abs_pos - from.abs_pos;
	VH_ASSERT(from.abs_pos >= 0 && from.abs_pos <= to.abs_pos && to.abs_pos <= fq_tail - fq_head, "pieces are taken from the received header");
	if (dest == c_->h_key) { snap[2] = fq_buf; dest->str = (char*) snap[2].b + fq_head + from.abs_pos; }
	else { snap[3] = fq_buf; dest->str = (char*) snap[3].b + fq_head + from.abs_pos; }
	dest->str[n] = 0; dest->len = n;
	return TRUE;
}
void li_http_header_insert(liHttpHeaders *headers, const gchar *key, size_t keylen, const gchar *val, size_t valuelen) {
	VH_BOUND(nhdr < 4, "headers");
	got[nhdr].kl = keylen; got[nhdr].vl = valuelen; got[nhdr].kc = probe < keylen ? key[probe] : 0; got[nhdr].vc = probe < valuelen ? val[probe] : 0; nhdr++;
}
/* reference, one byte at a time */
enum { S0, MAYBE, VER, STATUS, STSP, REASON, RLF, HSTART, HEND, KEY, VAL0, VAL, VCR, VLF, Q, QP, QCR, QLF, DONE, ERR };
static unsigned st, pos, maj, min, mj2, mn2, sd, code, havecode, cgicode, havecgi, drop, start; static unsigned rn; static struct { unsigned ks, ke, vs, ve; } rh[4];
static int ctl(unsigned char c) { return c < 32 || c == 127; }
static int sep(unsigned char c) { return c == '(' || c == ')' || c == '<' || c == '>' || c == '@' || c == ',' || c == ';' || c == ':' || c == '\\' || c == '"' || c == '/' || c == '[' || c == ']' || c == '?' || c == '=' || c == '{' || c == '}' || c == ' ' || c == '\t'; }
static int tok(unsigned char c) { return !ctl(c) && !sep(c); }
static int dgt(unsigned char c) { return c >= '0' && c <= '9'; }
static unsigned vst;
static void feed(unsigned char c) {
	unsigned i = pos; static const char kw[] = "HTTP/";
	if (st == DONE || st == ERR) return;
	pos++;
	if (st == VLF) { if (c == ' ' || c == '\t') { st = VAL; return; } rh[rn].ve = i; rn++; st = HSTART; }
	if (st == S0) { vst = 0; if (c == 'H') { st = MAYBE; vst = 1; rh[rn].ks = i; return; } st = HSTART; }
	if (st == MAYBE) { if (c == (unsigned char) kw[vst]) { vst++; if (vst == 5) { st = VER; vst = 5; } return; } st = KEY; }
	switch (st) {
	case VER:
		if (vst == 5) { if (dgt(c)) { vst = 6; maj = c - '0'; } else st = ERR; }
		else if (vst == 6) { if (c == '.') vst = 7; else if (dgt(c)) mj2 = 1; else st = ERR; }
		else if (vst == 7) { if (dgt(c)) { vst = 8; min = c - '0'; } else st = ERR; }
		else { if (dgt(c)) mn2 = 1; else if (c == ' ') { st = STATUS; sd = 0; code = 0; havecode = 1; } else st = ERR; }
		break;
	case STATUS: if (!dgt(c)) { st = ERR; break; } code = code * 10 + (c - '0'); if (++sd == 3) st = STSP; break;
	case STSP: if (c == ' ') { st = REASON; if (code == 100 || code == 102) drop = 1; } else st = ERR; break;
	case REASON: if (c == '\r') st = RLF; else if (c == '\n') st = HSTART; else if (ctl(c)) st = ERR; break;
	case RLF: st = c == '\n' ? HSTART : ERR; break;
	case HSTART: if (c == '\r') st = HEND; else if (c == '\n') st = DONE; else if (tok(c)) { rh[rn].ks = i; st = KEY; } else st = ERR; break;
	case HEND: st = c == '\n' ? DONE : ERR; break;
	case KEY: if (c == ':') { rh[rn].ke = i; st = VAL0; } else if (!tok(c)) st = ERR; break;
	case VAL0: if (c == ' ' || c == '\t') break; rh[rn].vs = i; st = VAL; /* fall through */
	case VAL: if (c == '"') st = Q; else if (c == '\r') st = VCR; else if (c == '\n') st = VLF; else if (ctl(c) && c != '\t') st = ERR; break;
	case VCR: st = c == '\n' ? VLF : ERR; break;
	case Q: if (c == '"') st = VAL; else if (c == '\\') st = QP; else if (c == '\r') st = QCR; else if (c == '\n') st = QLF; else if (ctl(c) && c != '\t') st = ERR; break;
	case QP: st = ctl(c) || c > 127 ? ERR : Q; break;
	case QCR: st = c == '\n' ? QLF : ERR; break;
	case QLF: st = c == ' ' || c == '\t' ? Q : ERR; break;
	}
	if (st == DONE && drop) { /* interim response: parsing starts over with what follows */
		st = S0; start = pos; rn = 0; drop = 0; mj2 = mn2 = 0;
	}
}
void vh_main(void) {
	static liHttpResponseCtx ctx; static liResponse resp; static liVRequest vr; unsigned i, j; liHandlerResult r;
	probe = vh_range(0, 7); c_ = &ctx;
	for (i = 0; i < PL; i++) { fq_b[i] = P[i]; feed(P[i]); }
	for (i = 0; i < N; i++) fq_b[PL+i] = vh_u8();
	for (i = 0; i < SL; i++) fq_b[PL+N+i] = S[i];
	li_http_response_parser_init(&ctx, &resp, &fq_in, CGI, FALSE);
	for (i = 0; i < N; i++) feed(fq_b[PL+i]);
	for (i = 0; i < SL; i++) feed(S[i]);
	VH_ASSUME(!drop || PIECE); VH_ASSUME(start == 0 || SEC == 7); /* one interim response at most */
	fq_tail = PL + N + SL; fq_sync();
	r = li_http_response_parse(&vr, &ctx);
	if (st == DONE) {
		unsigned nst = 0, k = 0; int cs = -1;
		VH_ASSERT(r == LI_HANDLER_GO_ON, "a complete, well-formed header is accepted");
		VH_ASSERT(fq_head == pos, "exactly the header is consumed; what follows is the body");
		if (havecode) VH_ASSERT(ctx.http_version == (!mj2 && !mn2 && maj == 1 && min == 0 ? LI_HTTP_VERSION_1_0 : !mj2 && !mn2 && maj == 1 && min == 1 ? LI_HTTP_VERSION_1_1 : LI_HTTP_VERSION_UNSET), "version");
		for (j = 0; j < 2; j++) if (j < rn) {
			unsigned e = rh[j].ve; int isst = 0;
			for (i = FQ_N; i-- > 0; ) if (i + 1 == e && i >= rh[j].vs && (fq_b[i] == ' ' || fq_b[i] == '\r' || fq_b[i] == '\n')) e = i;
#if CGI
			if (rh[j].ke - rh[j].ks == 6) { isst = 1; for (i = 0; i < 6; i++) if ((fq_b[rh[j].ks + i] | 32) != "status"[i]) isst = 0; }
#endif
			if (isst) { int x = 0, go = 1; nst++; for (i = 0; i < N; i++) { if (rh[j].vs + i < e && go && dgt(fq_b[rh[j].vs + i])) x = x * 10 + (fq_b[rh[j].vs + i] - '0'); else { if (i == 0 || !go || 1) go = 0; } } cs = x; if (rh[j].vs < e && (fq_b[rh[j].vs] == '+' || fq_b[rh[j].vs] == '-' || (fq_b[rh[j].vs] >= 9 && fq_b[rh[j].vs] <= 13))) cs = -2; continue; }
			VH_ASSERT(got[k].kl == rh[j].ke - rh[j].ks && (probe >= got[k].kl || got[k].kc == (char) fq_b[rh[j].ks + probe]), "header name");
			VH_ASSERT(got[k].vl == e - rh[j].vs && (probe >= got[k].vl || got[k].vc == (char) fq_b[rh[j].vs + probe]), "header value without surrounding white space");
			k++;
		}
		VH_ASSERT(nhdr + nst == rn, "every header line becomes one header, a CGI Status line becomes the status");
		if (cs >= 0) VH_ASSERT(resp.http_status == (cs ? cs : 200), "status of the CGI Status line");
		else if (cs == -1 && SEC != 7) VH_ASSERT(resp.http_status == (havecode && code ? code : 200), "status of the status line, 200 without one");
		else if (cs == -1 && havecode && start) VH_ASSERT(code == 0 || resp.http_status == code, "status of the final response");
	} else if (st == ERR) VH_ASSERT(r == LI_HANDLER_ERROR, "a malformed header is refused");
	else { VH_ASSERT(r == LI_HANDLER_WAIT_FOR_EVENT, "an incomplete header waits for more"); VH_ASSERT(fq_head == start, "nothing but interim responses is consumed before the header is complete"); }
#if SEC != 0 && SEC != 3
	VH_REACH_IF(st == DONE, "complete");
#endif
	VH_REACH_IF(st == ERR, "malformed");
#if SEC == 0 || SEC == 3 || SEC == 4 || SEC == 5
	VH_REACH_IF(st != ERR && st != DONE, "incomplete");
#endif
#if SEC == 3 && N >= 4
	VH_REACH_IF(st == DONE && rn == 1, "header");
#endif
#if SEC == 6 && CGI
	VH_REACH_IF(st == DONE && resp.http_status > 400, "status");
#endif
}
