/*@
prop: C08
src: src/main/filter_chunked.c src/main/chunk.c src/common/buffer.c
wrap: pread open close unlink posix_fadvise mmap munmap madvise
stub: li_event_io_rem_events li_event_io_add_events
union-as-struct: 1
light: 1
defs: VH_GSTR_CAP=8 VH_ARR_CAP=20 FIRST=0
unwind: 3
unwindset: http_chunk_append_len.0:17 http_chunk_append_len.1:17
munwind: 20
hunwind: 20
quick: mem FIRST=0
quick: file FIRST=1
quick: memfile FIRST=2
outside: more than two chunks per call; pieces over 2^62 bytes
@*/
#include "inc/cq.h"
void vh_main(void) {
	liChunkQueue *in = li_chunkqueue_new(), *out = li_chunkqueue_new(); GString *fn = g_string_new("f"); liVRequest *vr = NULL;
	goffset len = 0, L, rest; unsigned i, dg = 0, closed, pr, round, mlen = 0; unsigned char buf[24]; GError *err = NULL; liHandlerResult res;
	unsigned char m[3] = { 'x', 'y', 'z' };
	closed = vh_bool();
	if (FIRST != 1) { mlen = vh_range(0, 3); if (mlen) li_chunkqueue_append_mem(in, m, mlen); }
	if (FIRST != 0) { L = vh_i64_range(1, G_GINT64_CONSTANT(0x3fffffffffffffff)); li_chunkqueue_append_file(in, fn, 7, L); } else L = 0;
	len = mlen + L;
	in->is_closed = closed;
	res = li_filter_chunked_encode(vr, out, in);
	VH_ASSERT(res == LI_HANDLER_GO_ON, "encoding succeeds");
	VH_ASSERT(in->length == 0, "all input is consumed");
	VH_ASSERT(out->is_closed == (gboolean) closed, "output is closed exactly when the input is");
	for (i = 0; i < 16; i++) if ((guint64) len >> (4 * i)) dg = i + 1;
	rest = len ? (goffset) dg + 2 + len + 2 : 0; rest += closed ? 5 : 0;
	VH_ASSERT(out->length == rest, "size line, data, CRLF and last chunk only");
	pr = vh_range(0, 17);
	if (len) {
		if (pr < dg) { int c = cq_peek(out, pr); unsigned v = (len >> (4 * (dg - 1 - pr))) & 15; VH_ASSERT(c == (unsigned char) "0123456789abcdef"[v] || c == (unsigned char) "0123456789ABCDEF"[v], "the size line is the exact length in hexadecimal"); }
		if (pr < 2) VH_ASSERT(cq_peek(out, dg + pr) == "\r\n"[pr], "CRLF after the size");
		if (pr < mlen) VH_ASSERT(cq_peek(out, dg + 2 + pr) == m[pr], "data follows");
		if (pr < 2) VH_ASSERT(cq_peek(out, dg + 2 + len + pr) == "\r\n"[pr], "CRLF after the data");
		if (L) VH_ASSERT(cq_peek(out, dg + 2 + mlen) == CQ_FILEBYTE(7), "file data follows");
	}
	if (closed) {
		if (pr < 5) VH_ASSERT(cq_peek(out, rest - 5 + pr) == "0\r\n\r\n"[pr], "the last chunk ends the body");
		/* the last chunk is sent once, whatever is called later */
		rest = out->length; res = li_filter_chunked_encode(vr, out, in);
		VH_ASSERT(out->length == rest, "the last chunk is not repeated");
	}
	VH_REACH_IF(closed && len > 0, "data and end");
	VH_REACH_IF(!closed && len > 0, "data");
#if FIRST != 1
	VH_REACH_IF(closed && mlen == 0, "no memory chunk");
#endif
#if FIRST
	VH_REACH_IF(dg > 8, "large file");
#endif
}
