/* Flat byte-stream stand-in for chunk queues and the chunk parser, for harnesses of stream parsers.
 * It keeps the contract that property C10 (queues) and C49 (chunk parser) establish for the real ones:
 * a queue is the sequence of its bytes; reading yields some non-empty prefix of what is there (every
 * fragmentation is possible: the piece length is symbolic); skipping/stealing n bytes removes/moves
 * exactly min(n, length) bytes from the front.  FQ_N: capacity. */
#include <lighttpd/base.h>
#include "vh.h"
/* queue 0 is read from, queue 1 is written to */
static liChunkQueue fq_in, fq_out; typedef struct { unsigned char b[FQ_N]; } FqBuf;
static FqBuf fq_buf; static unsigned char fq_o[FQ_N];
#define fq_b (fq_buf.b)
static unsigned fq_head, fq_tail, fq_on;
#ifndef FQ_PIECE
#define FQ_PIECE(have) vh_range(1, (have))
#endif
static void fq_sync(void) { fq_in.length = (goffset) fq_tail - fq_head; fq_out.length = fq_on; }
static void fq_put(unsigned char c) { fq_b[fq_tail++] = c; fq_sync(); }
goffset li_chunkqueue_skip(liChunkQueue *q, goffset n) {
	goffset h = (goffset) fq_tail - fq_head;
	VH_ASSERT(q == &fq_in, "only input is skipped");
	if (n > h) n = h; if (n < 0) n = 0; fq_head += n; fq_in.bytes_out += n; fq_sync(); return n;
}
goffset li_chunkqueue_skip_all(liChunkQueue *q) { return li_chunkqueue_skip(q, (goffset) fq_tail - fq_head); }
goffset li_chunkqueue_steal_len(liChunkQueue *out, liChunkQueue *in, goffset n) {
	goffset h = (goffset) fq_tail - fq_head; unsigned i;
	VH_ASSERT(in == &fq_in && out == &fq_out, "data goes from input to output");
	if (n > h) n = h; if (n < 0) n = 0;
	for (i = 0; i < FQ_N; i++) if (i < n) { fq_o[fq_on] = fq_b[fq_head]; fq_on++; fq_head++; }
	fq_in.bytes_out += n; fq_out.bytes_in += n; fq_sync();
	return n;
}
goffset li_chunkqueue_steal_all(liChunkQueue *out, liChunkQueue *in) { return li_chunkqueue_steal_len(out, in, (goffset) fq_tail - fq_head); }
void li_chunk_parser_reset(liChunkParserCtx *ctx) { ctx->bytes_in = 0; ctx->curi.element = NULL; ctx->start = 0; ctx->length = 0; ctx->buf = NULL; }
void li_chunk_parser_init(liChunkParserCtx *ctx, liChunkQueue *cq) { ctx->cq = cq; li_chunk_parser_reset(ctx); }
#ifdef FQ_PREP /* a reset parser has to be prepared again before it yields data */
static char fq_elem;
liHandlerResult li_chunk_parser_prepare(liChunkParserCtx *ctx) { if (fq_tail == fq_head) return LI_HANDLER_WAIT_FOR_EVENT; ctx->curi.element = (GList*) &fq_elem; return LI_HANDLER_GO_ON; }
#else
liHandlerResult li_chunk_parser_prepare(liChunkParserCtx *ctx) { return fq_tail != fq_head ? LI_HANDLER_GO_ON : LI_HANDLER_WAIT_FOR_EVENT; }
#endif
liHandlerResult li_chunk_parser_next(liChunkParserCtx *ctx, char **p, char **pe, GError **err) {
	unsigned have = fq_tail - fq_head, at = ctx->start, l;
#ifdef FQ_PREP
	if (NULL == ctx->curi.element) return LI_HANDLER_WAIT_FOR_EVENT;
#endif
	if (at >= have) return LI_HANDLER_WAIT_FOR_EVENT;
#ifdef FQ_ONCE
	{ static unsigned calls; if (calls++ >= FQ_ONCE) { VH_ASSERT(0, "a parser consumes what it is given unless it is finished"); return LI_HANDLER_WAIT_FOR_EVENT; } }
#endif
	l = FQ_PIECE(have - at);
	ctx->buf = (char*) fq_b + fq_head + at; ctx->length = l;
	*p = ctx->buf; *pe = ctx->buf + l;
	return LI_HANDLER_GO_ON;
}
void li_chunk_parser_done(liChunkParserCtx *ctx, goffset len) { ctx->bytes_in += len; ctx->start += len; }
#define FQ_STUBS li_chunkqueue_skip li_chunkqueue_skip_all li_chunkqueue_steal_len li_chunkqueue_steal_all li_chunk_parser_reset li_chunk_parser_init li_chunk_parser_prepare li_chunk_parser_next li_chunk_parser_done
