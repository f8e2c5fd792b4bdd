/*@
prop: C07
src: src/main/filter_chunked.c
stub: li_chunkqueue_skip li_chunkqueue_skip_all li_chunkqueue_steal_len li_chunkqueue_steal_all li_chunk_parser_reset li_chunk_parser_init li_chunk_parser_prepare li_chunk_parser_next li_chunk_parser_done
light: 1
defs: PFX=0 N=6 A=0 PIECE=0
cost: 20
object-bits: 11
unwind: 3
munwind: 20
hunwind: 10
unwindset: li_filter_chunked_decode.16:12
quick: start N=7
quick: start1 N=6 PIECE=1
quick: split2 N=5 A=2
quick: split4 N=6 A=4
quick: trailer PFX=2 N=5
quick: trailer1 PFX=2 N=5 A=2
quick: data PFX=1 N=6 hunwind=16
quick: big PFX=3 N=3 hunwind=21
quick: err PFX=4 N=3
thorough: start N=9
thorough: start1 N=8 PIECE=1
thorough: split N=7 A=3
thorough: split5 N=7 A=5
thorough: trailer PFX=2 N=8
thorough: trailer1 PFX=2 N=7 A=3
thorough: data PFX=1 N=7
thorough: big PFX=3 N=5 hunwind=22
thorough: err PFX=4 N=5
outside: symbolic parts longer than N bytes after the given prefix; a bare CR inside trailers
@*/
#if PFX == 0
#define P ""
#elif PFX == 1
#define P "2\r\nab\r\n"
#elif PFX == 2
#define P "0\r\n"
#elif PFX == 4
#define P "1\r\naXY"
#else
#define P "7ffffffffffffff"
#endif
#define PL (sizeof(P)-1)
#define FQ_N (PL+N+1)
#if PIECE
#define FQ_PIECE(have) 1
#else
#define FQ_PIECE(have) (have)
#endif
#include "inc/flatq.h"
/* byte at a time reference decoder */
static unsigned st; static long need; static unsigned nout; static unsigned char o[FQ_N]; static unsigned consumed;
enum { SIZE0, SIZE, SIZELF, DATA, DCR, DLF, T_START, T_LINE, T_LF, T_END_LF, DONE, ERR };
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void feed(unsigned char c) {
	int h = hexv(c);
	if (st == DONE || st == ERR) return;
	consumed++;
	switch (st) {
	case SIZE0: if (h < 0) st = ERR; else { need = h; st = SIZE; } break;
	case SIZE: if (h >= 0) { if (need > (G_MAXINT64 - h) / 16) st = ERR; else need = 16 * need + h; } else if (c == '\r') st = SIZELF; else st = ERR; break;
	case SIZELF: if (c != '\n') st = ERR; else st = need ? DATA : T_START; break;
	case DATA: o[nout++] = c; if (--need == 0) st = DCR; break;
	case DCR: st = c == '\r' ? DLF : ERR; break;
	case DLF: st = c == '\n' ? SIZE0 : ERR; break;
	case T_START: st = c == '\r' ? T_END_LF : T_LINE; break;
	case T_LINE: st = c == '\r' ? T_LF : T_LINE; break;
	case T_LF: st = c == '\n' ? T_START : T_LINE; VH_ASSUME(c != '\r'); break;
	case T_END_LF: st = c == '\n' ? DONE : T_LINE; VH_ASSUME(c == '\n'); break;
	}
}
void vh_main(void) {
	liChunkQueue *in = &fq_in, *out = &fq_out; static liFilterChunkedDecodeState s; liVRequest *vr = NULL;
	unsigned i, pr; gboolean ok; int eof = 0;
	for (i = 0; i < PL; i++) { fq_put(P[i]); feed(P[i]); }
	if (PL) { ok = li_filter_chunked_decode(vr, out, in, &s); VH_ASSERT(!ok == (st == ERR), "prefix is accepted or refused"); }
	for (i = 0; i < N; i++) fq_b[PL+i] = vh_u8();
#if A
	for (i = 0; i < A; i++) feed(fq_b[PL+i]);
	fq_tail = PL + A; fq_sync();
	ok = li_filter_chunked_decode(vr, out, in, &s);
	VH_ASSERT(!ok == (st == ERR), "malformed framing is reported, well-formed input accepted (first part)");
	if (!ok) return;
#else
	eof = vh_bool();
#endif
	for (i = A; i < N; i++) feed(fq_b[PL+i]);
	fq_tail = PL + N; fq_sync();
	in->is_closed = eof;
	ok = li_filter_chunked_decode(vr, out, in, &s);
	if (st == ERR) VH_ASSERT(!ok, "malformed framing is reported");
	else if (st == DONE || !eof) VH_ASSERT(ok, "well-formed input is accepted");
	else if (st != DATA) VH_ASSERT(!ok, "a body cut short by the end of the input is an error");
	VH_ASSERT(out->is_closed == (gboolean) (st == DONE || !ok), "the body ends exactly at the last chunk or with the error");
	VH_ASSERT(out->length == nout, "the body has exactly the framed bytes");
	pr = vh_range(0, PL+N-1);
	if (pr < nout) VH_ASSERT(fq_o[pr] == o[pr], "body bytes are unchanged and in order");
	if (ok) VH_ASSERT(fq_head == consumed, "bytes after the body are left for the next request");
#if PFX == 2
	VH_REACH_IF(st == DONE && in->length > 0, "pipelined");
	VH_REACH_IF(st == DONE && consumed == PL+N, "trailer");
#else
	VH_REACH_IF(st == ERR, "error");
#endif
#if PFX <= 1
	VH_REACH_IF(st == DATA && nout > 0, "partial data");
	VH_REACH_IF(st == DONE, "complete");
#elif PFX == 3
	VH_REACH_IF(ok, "largest size");
#endif
}
