/* Force-included (CBMC build only): keeps the real glib headers and types, but routes typed
 * allocation to malloc(sizeof(T)) so that the solver sees typed objects. */
#ifndef VH_GLIB_OVER_H
#define VH_GLIB_OVER_H
#include <glib.h>
#include <stdlib.h>
#undef g_slice_new
#undef g_slice_new0
#undef g_slice_free
#undef g_slice_dup
#define g_slice_new(T) ((T*) malloc(sizeof(T)))
#define g_slice_new0(T) ({ static const T vh_z_; T *vh_q_ = (T*) malloc(sizeof(T)); *vh_q_ = vh_z_; vh_q_; })
#define g_slice_free(T, p) do { T *vh_p_ = (p); free(vh_p_); } while (0)
#undef g_new
#undef g_new0
#define g_new(T, n) ((T*) malloc(sizeof(T) * (n)))
#define g_new0(T, n) ((T*) calloc((n), sizeof(T)))
/* plain (sequentialised) atomics; harnesses are single threaded unless they say otherwise */
#undef g_atomic_int_get
#undef g_atomic_int_set
#undef g_atomic_int_inc
#undef g_atomic_int_dec_and_test
#undef g_atomic_int_add
#undef g_atomic_int_exchange_and_add
#undef g_atomic_int_compare_and_exchange
#undef g_atomic_pointer_get
#undef g_atomic_pointer_set
#undef g_atomic_pointer_compare_and_exchange
#define g_atomic_int_get(a) (*(a))
#define g_atomic_int_set(a, v) ((void)(*(a) = (v)))
#define g_atomic_int_inc(a) ((void)(*(a) += 1))
#define g_atomic_int_dec_and_test(a) ((gboolean)(0 == (*(a) -= 1)))
#define g_atomic_int_add(a, v) vh_fetch_add((gint*)(a), (v))
#define g_atomic_int_exchange_and_add(a, v) vh_fetch_add((gint*)(a), (v))
#define g_atomic_int_compare_and_exchange(a, o, n) vh_cas((gint*)(a), (o), (n))
#define g_atomic_pointer_get(a) (*(a))
#define g_atomic_pointer_set(a, v) ((void)(*(a) = (v)))
static inline gint vh_fetch_add(gint *a, gint v) { gint o = *a; *a += v; return o; }
static inline gboolean vh_cas(gint *a, gint o, gint n) { if (*a == o) { *a = n; return TRUE; } return FALSE; }
#undef g_clear_error
#undef g_str_equal
#undef g_strdup
#undef g_str_has_prefix
#undef g_str_has_suffix
#undef g_string_free
#undef g_string_append_c
#undef g_string_append_len
#undef g_string_append
#undef g_string_truncate
#undef g_set_error
#define g_set_error vh_g_set_error
void vh_g_set_error(GError **err, GQuark domain, gint code, const gchar *format, ...);
#undef g_bit_nth_lsf
#define g_bit_nth_lsf vh_bit_nth_lsf
gint vh_bit_nth_lsf(gulong mask, gint nth);
#undef g_error
#define g_error(...) vh_abort("g_error")
#undef g_debug
#define g_debug(...) ((void)0)
#undef g_warning
#define g_warning(...) ((void)0)
#undef g_message
#define g_message(...) ((void)0)
#undef g_assert
#define g_assert(x) do { if (!(x)) vh_abort("g_assert " #x); } while (0)
#undef g_return_if_fail
#define g_return_if_fail(x) do { if (!(x)) return; } while (0)
#undef g_return_val_if_fail
#define g_return_val_if_fail(x, v) do { if (!(x)) return (v); } while (0)
#undef g_assert_not_reached
#define g_assert_not_reached() vh_abort("g_assert_not_reached")
void vh_abort(const char *what);
#undef g_mutex_new
#undef g_mutex_free
#undef g_mutex_lock
#undef g_mutex_unlock
#undef g_mutex_trylock
#undef g_static_mutex_lock
#undef g_static_mutex_unlock
#undef g_static_mutex_init
#undef g_static_mutex_free
#define g_mutex_new() ((GMutex*) 1)
#define g_mutex_free(m) ((void)(m))
#define g_mutex_lock(m) ((void)(m))
#define g_mutex_unlock(m) ((void)(m))
#define g_mutex_trylock(m) ((void)(m), TRUE)
#define g_static_mutex_lock(m) ((void)(m))
#define g_static_mutex_unlock(m) ((void)(m))
#define g_static_mutex_init(m) ((void)(m))
#define g_static_mutex_free(m) ((void)(m))
#ifdef VH_UAS
/* tagged unions of the repo become structs (never punned; see DESIGN.md), so that the solver does
 * not need byte-level encodings; system unions and the (punned) socket address union stay unions */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <math.h>
#include <ev.h>
#include <lua.h>
#include <gmodule.h>
#include <lighttpd/settings.h>
#include <lighttpd/sys_socket.h>
#define union struct
#endif
#endif
