/*@
prop: C10
src: src/main/chunk.c src/common/buffer.c src/common/utils.c
wrap: pread open close unlink posix_fadvise mmap munmap madvise
stub: li_event_io_rem_events li_event_io_add_events
union-as-struct: 1
defs: VH_GSTR_CAP=4 VH_ARR_CAP=4 MAXC=3
light: 1
unwind: 4
hunwind: 7
unwindset: g_byte_array_append.0:5 g_string_new_len.0:5 verify.0:5 vh_main.0:8
quick: steal_len_k1 OP=0 KK=1 
quick: steal_len_k6 OP=0 KK=6
quick: steal_len_k11 OP=0 KK=11
quick: steal_len_k12 OP=0 KK=12
quick: skip_k1 OP=1 KK=1
quick: skip_k6 OP=1 KK=6
quick: skip_k11 OP=1 KK=11
quick: skip_k12 OP=1 KK=12
quick: steal_all_k1 OP=2 KK=1
quick: steal_all_k6 OP=2 KK=6
quick: steal_all_k11 OP=2 KK=11
quick: steal_all_k12 OP=2 KK=12
quick: steal_chunk_k1 OP=3 KK=1
quick: steal_chunk_k6 OP=3 KK=6
quick: steal_chunk_k11 OP=3 KK=11
quick: steal_chunk_k12 OP=3 KK=12
quick: safe_skip OP=1 KK=11 light=0 MAXC=2
quick: safe_steal OP=0 KK=12 light=0 MAXC=2
outside: more than 2 chunks, chunks longer than 3 bytes
@*/
#include "inc/cq.h"

static unsigned char sa[2*MAXC]; static unsigned na;
static unsigned char sb[4*MAXC]; static unsigned nb;
static GString *fn; static unsigned probe;

/* one chunk of arbitrary kind/size with an arbitrary part already consumed */
static void append(liChunkQueue *cq, unsigned kind, unsigned char base, unsigned char *sh, unsigned *sn) {
	unsigned n = vh_range(1, MAXC), skip, i;
	unsigned char tmp[MAXC];
	for (i = 0; i < MAXC; i++) tmp[i] = base + i;
	switch (kind) {
	case 0: li_chunkqueue_append_mem(cq, tmp, n); break;
	case 1: li_chunkqueue_append_string(cq, g_string_new_len((char*) tmp, n)); break;
	case 2: {
		liBuffer *b = li_buffer_new_slice(MAXC);
		for (i = 0; i < MAXC; i++) b->addr[i] = tmp[i];
		b->used = n;
		li_chunkqueue_append_buffer(cq, b);
		} break;
	default:
		for (i = 0; i < MAXC; i++) tmp[i] = CQ_FILEBYTE(base + i);
		li_chunkqueue_append_file(cq, fn, base, n);
	}
	for (i = 0; i < n; i++) sh[(*sn)++] = tmp[i];
}
static void verify(liChunkQueue *cq, const unsigned char *sh, unsigned len) {
	liChunkIter it; goffset mem = 0; unsigned pos = 0; unsigned p = probe;
	VH_ASSERT(cq->length == len, "queue length equals the bytes it should hold");
	for (it = li_chunkqueue_iter(cq); li_chunkiter_chunk(it); li_chunkiter_next(&it)) {
		liChunk *c = li_chunkiter_chunk(it);
		goffset l = li_chunkiter_length(it);
		if (c->type == STRING_CHUNK) mem += c->data.str->len;
		else if (c->type == MEM_CHUNK) mem += c->mem->len;
		else if (c->type == BUFFER_CHUNK) mem += c->data.buffer.length;
		VH_ASSERT(l >= 0 && l <= len - pos, "chunk length in range");
		if (p >= pos && p < pos + l) {
			char *d; off_t dl; liHandlerResult r;
			r = li_chunkiter_read(it, p - pos, 1, &d, &dl, NULL);
			VH_ASSERT(LI_HANDLER_GO_ON == r && dl == 1, "readable");
			VH_ASSERT((unsigned char) d[0] == sh[p], "byte content and order preserved");
		}
		pos += l;
	}
	VH_ASSERT(pos == len, "chunks sum up to the queue length");
	VH_ASSERT(mem == cq->mem_usage, "memory accounting");
}
void vh_main(void) {
	liChunkQueue *a = li_chunkqueue_new(), *b = li_chunkqueue_new();
	goffset n, r, want; unsigned off, i;
	fn = g_string_new("f");
	append(a, (KK)&3, 10, sa, &na); append(a, (KK)>>2, 20, sa, &na);
	off = vh_range(0, MAXC-1);
	{ liChunk *c = li_chunkqueue_first_chunk(a); goffset l = li_chunk_length(c);
	  VH_ASSUME(off < l); c->offset = off; a->length -= off; a->bytes_out += off; na -= off; }
	append(b, 0, 30, sb, &nb);
	n = vh_range(0, 2*MAXC+1);
	probe = vh_range(0, 4*MAXC-1);
#if OP == 0
	r = li_chunkqueue_steal_len(b, a, n); want = MIN(n, na);
#elif OP == 1
	r = li_chunkqueue_skip(a, n); want = MIN(n, na);
#elif OP == 2
	r = li_chunkqueue_steal_all(b, a); want = na;
#else
	want = li_chunk_length(li_chunkqueue_first_chunk(a));
	r = li_chunkqueue_steal_chunk(b, a);
#endif
	VH_ASSERT(r == want, "operation moves exactly the requested bytes");
	
	if (OP != 1) { for (i = 0; i < want; i++) sb[nb + i] = sa[off + i]; nb += want; VH_ASSERT(b->bytes_in == nb, "bytes_in"); }
	VH_ASSERT(a->bytes_out == off + want, "bytes_out");
	verify(a, sa + off + want, na - want);
	verify(b, sb, nb);
	VH_REACH_IF(r > 0 && (OP == 2 || r < na), "end");
}
