/* shared environment for harnesses that use the real chunk.c/buffer.c: files are a pure function of
 * the offset, file system calls are recording stand-ins */
#include <lighttpd/base.h>
#include "vh.h"
#include <errno.h>
#include <sys/mman.h>
#ifndef CQ_FILEBYTE
#define CQ_FILEBYTE(off) ((unsigned char)(100 + (off)))
#endif
#ifndef CQ_CUSTOM_IO
ssize_t VH_WRAP(pread)(int fd, void *buf, size_t n, off_t off) {
	size_t i;
	VH_ASSERT(n > 0, "pread length positive");
	if (n > 4) n = 4; /* short reads are legal */
	for (i = 0; i < n; i++) ((unsigned char*)buf)[i] = CQ_FILEBYTE(off + i);
	return n;
}
void* VH_WRAP(mmap)(void *a, size_t l, int p, int f, int fd, off_t o) { errno = ENODEV; return MAP_FAILED; }
int VH_WRAP(munmap)(void *a, size_t l) { return 0; }
int VH_WRAP(madvise)(void *a, size_t l, int x) { return 0; }
int VH_WRAP(posix_fadvise)(int fd, off_t a, off_t b, int c) { return 0; }
#endif
#ifndef CQ_CUSTOM_FS
static int cq_opened, cq_closed, cq_unlinked;
int VH_WRAP(open)(const char *p, int fl, ...) { cq_opened++; return 5; }
int VH_WRAP(close)(int fd) { cq_closed++; return 0; }
int VH_WRAP(unlink)(const char *p) { cq_unlinked++; return 0; }
#endif
#ifndef CQ_CUSTOM_EV
static int cq_ev_rem, cq_ev_add;
void li_event_io_rem_events(liEventIO *io, int e) { cq_ev_rem++; }
void li_event_io_add_events(liEventIO *io, int e) { cq_ev_add++; }
#endif

#ifndef CQ_PEEK
#define CQ_PEEK 6
#endif
/* byte idx of a queue (reads the chunks as they lie there; -1: past the end, -2: file byte of an unknown file) */
static int cq_peek(liChunkQueue *cq, goffset idx) {
	GList *l = cq->queue.head; unsigned i; int r = -1;
	for (i = 0; i < CQ_PEEK; i++) if (l && r == -1) {
		liChunk *c = (liChunk*) l->data; goffset n = 0; const char *d = NULL;
		switch (c->type) {
		case STRING_CHUNK: n = c->data.str->len; d = c->data.str->str; break;
		case MEM_CHUNK: n = c->mem->len; d = (const char*) c->mem->data; break;
		case BUFFER_CHUNK: n = c->data.buffer.length; d = c->data.buffer.buffer->addr + c->data.buffer.offset; break;
		case FILE_CHUNK: n = c->data.file.length; break;
		default: break;
		}
		if (idx < n - c->offset) r = d ? (unsigned char) d[c->offset + idx] : CQ_FILEBYTE(c->data.file.start + c->offset + idx);
		else { idx -= n - c->offset; l = l->next; }
	}
	return r;
}
