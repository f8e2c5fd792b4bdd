/* Stand-in for the repo's event layer (lighttpd/events.h on top of libev): same interface, watchers are plain
 * records, time is the harness variable vh_now.  Harnesses invoke callbacks through vh_fire_*. */
#ifndef _LIGHTTPD_EVENTS_H_
#define _LIGHTTPD_EVENTS_H_
#include <lighttpd/settings.h>
#include <lighttpd/utils.h>
enum { LI_EV_READ = 0x01, LI_EV_WRITE = 0x02, LI_EV_WAKEUP = 0x04 } HEDLEY_FLAGS;
typedef enum { LI_EVT_NONE = 0, LI_EVT_IO, LI_EVT_TIMER, LI_EVT_ASYNC, LI_EVT_CHILD, LI_EVT_SIGNAL, LI_EVT_PREPARE, LI_EVT_CHECK } liEventType;
typedef struct liEventLoop liEventLoop;
typedef struct liEventBase liEventBase;
typedef struct liEventIO liEventIO;
typedef struct liEventTimer liEventTimer;
typedef struct liEventAsync liEventAsync;
typedef struct liEventChild liEventChild;
typedef struct liEventSignal liEventSignal;
typedef struct liEventPrepare liEventPrepare;
typedef struct liEventCheck liEventCheck;
typedef double li_tstamp;
typedef void (*liEventCallback)(liEventBase *watcher, int events);
struct liEventBase { liEventType type; unsigned keep_loop_alive, active; liEventLoop *loop; liEventCallback callback; };
struct liEventIO { liEventBase base; int events; int fd; };
struct liEventTimer { liEventBase base; li_tstamp repeat, deadline; };
struct liEventAsync { liEventBase base; unsigned sent; };
struct liEventChild { liEventBase base; int pid, status; };
struct liEventSignal { liEventBase base; int signum; };
struct liEventPrepare { liEventBase base; };
struct liEventCheck { liEventBase base; };
#include <lighttpd/jobqueue.h>
struct liEventLoop { struct ev_loop *loop; liJobQueue jobqueue; unsigned int end:1; };
extern li_tstamp vh_now;
LI_API void li_event_loop_init(liEventLoop *loop, struct ev_loop *evloop);
LI_API struct ev_loop* li_event_loop_clear(liEventLoop *loop);
LI_API void li_event_loop_run(liEventLoop *loop);
LI_API void li_event_loop_end(liEventLoop *loop);
LI_API void li_event_loop_exit(liEventLoop *loop);
LI_API void li_event_add_closing_socket(liEventLoop *loop, int fd);
static inline li_tstamp li_event_time(void) { return vh_now; }
static inline li_tstamp li_event_now(liEventLoop *loop) { return vh_now; }
static inline void li_event_attach_(liEventLoop *loop, liEventBase *base) { base->loop = loop; }
static inline void li_event_detach_(liEventBase *base) { base->loop = NULL; }
static inline gboolean li_event_attached_(liEventBase *base) { return NULL != base->loop; }
static inline liEventLoop* li_event_get_loop_(liEventBase *base) { return base->loop; }
static inline void li_event_start_(liEventBase *base) { LI_FORCE_ASSERT(NULL != base->callback); base->active = 1; }
static inline void li_event_stop_(liEventBase *base) { base->active = 0; }
static inline gboolean li_event_active_(liEventBase *base) { return base->active; }
static inline void li_event_set_keep_loop_alive_(liEventBase *base, gboolean k) { base->keep_loop_alive = !!k; }
static inline void li_event_clear_(liEventBase *base) { base->loop = NULL; base->active = 0; base->callback = NULL; base->type = LI_EVT_NONE; }
static inline void li_event_set_callback_(liEventBase *base, liEventCallback callback) { base->callback = callback; }
#define li_event_attach(l, watcher) (li_event_attach_((l), &(watcher)->base))
#define li_event_detach(watcher) (li_event_detach_(&(watcher)->base))
#define li_event_attached(watcher) (li_event_attached_(&(watcher)->base))
#define li_event_get_loop(watcher) (li_event_get_loop_(&(watcher)->base))
#define li_event_start(watcher) (li_event_start_(&(watcher)->base))
#define li_event_stop(watcher) (li_event_stop_(&(watcher)->base))
#define li_event_active(watcher) (li_event_active_(&(watcher)->base))
#define li_event_set_keep_loop_alive(watcher, k) (li_event_set_keep_loop_alive_(&(watcher)->base, k))
#define li_event_clear(watcher) (li_event_clear_(&(watcher)->base))
#define li_event_set_callback(watcher, cb) (li_event_set_callback_(&(watcher)->base, cb))
static inline void li_event_io_init(liEventLoop *loop, const char *n, liEventIO *io, liEventCallback callback, int fd, int events) { io->base.type = LI_EVT_IO; io->base.keep_loop_alive = 1; io->base.active = 0; io->base.loop = loop; io->base.callback = callback; io->events = events; io->fd = fd; }
static inline void li_event_io_set_fd(liEventIO *io, int fd) { if (-1 == fd) io->base.active = 0; io->fd = fd; }
static inline int li_event_io_fd(liEventIO *io) { return io->fd; }
static inline void li_event_io_set_events(liEventIO *io, int events) { io->events = events; }
static inline void li_event_io_add_events(liEventIO *io, int events) { io->events |= events; }
static inline void li_event_io_rem_events(liEventIO *io, int events) { io->events &= ~events; }
static inline liEventIO* li_event_io_from(liEventBase *base) { return LI_CONTAINER_OF(base, liEventIO, base); }
static inline void li_event_timer_init(liEventLoop *loop, const char *n, liEventTimer *t, liEventCallback callback) { t->base.type = LI_EVT_TIMER; t->base.keep_loop_alive = 1; t->base.active = 0; t->base.loop = loop; t->base.callback = callback; t->repeat = 0; }
static inline void li_event_timer_once(liEventTimer *t, li_tstamp timeout) { t->repeat = timeout; t->deadline = vh_now + timeout; t->base.active = 1; }
static inline liEventTimer* li_event_timer_from(liEventBase *base) { return LI_CONTAINER_OF(base, liEventTimer, base); }
static inline void li_event_async_init(liEventLoop *loop, const char *n, liEventAsync *a, liEventCallback callback) { a->base.type = LI_EVT_ASYNC; a->base.keep_loop_alive = 0; a->base.active = 1; a->base.loop = loop; a->base.callback = callback; a->sent = 0; }
static inline void li_event_async_send(liEventAsync *a) { a->sent++; }
static inline liEventAsync* li_event_async_from(liEventBase *base) { return LI_CONTAINER_OF(base, liEventAsync, base); }
static inline void li_event_prepare_init(liEventLoop *loop, const char *n, liEventPrepare *a, liEventCallback callback) { a->base.type = LI_EVT_PREPARE; a->base.active = 1; a->base.loop = loop; a->base.callback = callback; }
static inline liEventPrepare* li_event_prepare_from(liEventBase *base) { return LI_CONTAINER_OF(base, liEventPrepare, base); }
static inline void li_event_check_init(liEventLoop *loop, const char *n, liEventCheck *a, liEventCallback callback) { a->base.type = LI_EVT_CHECK; a->base.active = 1; a->base.loop = loop; a->base.callback = callback; }
static inline liEventCheck* li_event_check_from(liEventBase *base) { return LI_CONTAINER_OF(base, liEventCheck, base); }
static inline void vh_fire_timer(liEventTimer *t) { t->base.active = 0; t->base.callback(&t->base, LI_EV_WAKEUP); }
static inline void vh_fire_io(liEventIO *io, int ev) { io->base.callback(&io->base, ev); }
#endif
