/* CBMC model of the glib functions lighttpd2 uses (documented glib semantics, fixed capacities).
 * VH_GSTR_CAP: bytes in every GString buffer; VH_ARR_CAP: bytes in every GArray/GByteArray buffer;
 * growing past a capacity is a BOUND violation (the run becomes inconclusive), never silent. */
#include "glib_over.h"
#include "vh.h"
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#ifndef VH_GSTR_CAP
#define VH_GSTR_CAP 64
#endif
#ifndef VH_ARR_CAP
#define VH_ARR_CAP 64
#endif
#ifndef VH_HT_CAP
#define VH_HT_CAP 8
#endif

void vh_abort(const char *what) { __CPROVER_assert(0, "PROP server aborts (failed internal assertion)"); __CPROVER_assume(0); }
void abort(void) { __CPROVER_assert(0, "PROP abort() reached"); __CPROVER_assume(0); }
void g_assertion_message_expr(const char *d, const char *f, int l, const char *fn, const char *e) { vh_abort(e); }
void g_assertion_message(const char *d, const char *f, int l, const char *fn, const char *m) { vh_abort(m); }
void g_return_if_fail_warning(const char *d, const char *f, const char *e) { }
void g_log(const gchar *d, GLogLevelFlags l, const gchar *f, ...) { }
void g_print(const gchar *f, ...) { }
void g_printerr(const gchar *f, ...) { }

/* memory */
gpointer g_malloc(gsize n) { return n ? malloc(n) : NULL; }
gpointer g_malloc0(gsize n) { return n ? calloc(1, n) : NULL; }
gpointer g_malloc_n(gsize n, gsize s) { return malloc(n*s); }
gpointer g_malloc0_n(gsize n, gsize s) { return calloc(n, s); }
gpointer g_realloc(gpointer p, gsize n) { return realloc(p, n); }
void (g_free)(gpointer p) { free(p); }
void g_free_sized(gpointer p, size_t n) { free(p); }
gpointer g_slice_alloc(gsize n) { return malloc(n); }
gpointer g_slice_alloc0(gsize n) { return calloc(1, n); }
gpointer g_slice_copy(gsize n, gconstpointer p) { gpointer r = malloc(n); memcpy(r, p, n); return r; }
void g_slice_free1(gsize n, gpointer p) { free(p); }

/* strings */
gboolean (g_str_equal)(gconstpointer a, gconstpointer b) { return 0 == strcmp(a, b); }
guint g_str_hash(gconstpointer v) { const signed char *p; guint32 h = 5381; for (p = v; *p != '\0'; p++) h = (h << 5) + h + *p; return h; }
gboolean g_direct_equal(gconstpointer a, gconstpointer b) { return a == b; }
guint g_direct_hash(gconstpointer v) { return GPOINTER_TO_UINT(v); }
gboolean g_int_equal(gconstpointer a, gconstpointer b) { return *(const gint*)a == *(const gint*)b; }
guint g_int_hash(gconstpointer v) { return *(const gint*)v; }
gchar* (g_strdup)(const gchar *s) { gsize n, i; gchar *r; if (!s) return NULL; n = strlen(s); r = malloc(VH_GSTR_CAP); VH_BOUND(n < VH_GSTR_CAP, "g_strdup"); for (i = 0; i <= n; i++) r[i] = s[i]; return r; }
gchar* g_strndup(const gchar *s, gsize n) { gsize i; gchar *r; if (!s) return NULL; r = malloc(VH_GSTR_CAP); VH_BOUND(n < VH_GSTR_CAP, "g_strndup"); for (i = 0; i < n && s[i]; i++) r[i] = s[i]; for (; i <= n; i++) r[i] = 0; return r; }
gchar g_ascii_tolower(gchar c) { return (c >= 'A' && c <= 'Z') ? c - 'A' + 'a' : c; }
gchar g_ascii_toupper(gchar c) { return (c >= 'a' && c <= 'z') ? c - 'a' + 'A' : c; }
gint g_ascii_strcasecmp(const gchar *a, const gchar *b) {
	while (*a && *b) { gint x = (gint)(guchar) g_ascii_tolower(*a), y = (gint)(guchar) g_ascii_tolower(*b); if (x != y) return x - y; a++; b++; }
	return ((gint)(guchar)*a) - ((gint)(guchar)*b);
}
gint g_ascii_strncasecmp(const gchar *a, const gchar *b, gsize n) {
	while (n && *a && *b) { gint x, y; n--; x = (gint)(guchar) g_ascii_tolower(*a); y = (gint)(guchar) g_ascii_tolower(*b); if (x != y) return x - y; a++; b++; }
	if (n) return ((gint)(guchar)*a) - ((gint)(guchar)*b);
	return 0;
}
int g_strcmp0(const char *a, const char *b) { if (!a) return -(a != b); if (!b) return a != b; return strcmp(a, b); }
gboolean (g_str_has_prefix)(const gchar *s, const gchar *p) { return 0 == strncmp(s, p, strlen(p)); }
gboolean (g_str_has_suffix)(const gchar *s, const gchar *x) { gsize n = strlen(s), m = strlen(x); if (n < m) return FALSE; return 0 == strcmp(s + n - m, x); }
const gchar* g_strerror(gint e) { return "error"; }
const gchar* g_strsignal(gint e) { return "signal"; }

static int vh_isspace(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
guint64 vh_parse_longlong(const gchar *nptr, const gchar **endptr, guint base, gboolean *negative, gboolean *over) {
	const gchar *s = nptr, *save; guint64 cutoff, cutlim, ui; gboolean overflow = FALSE; guchar c;
	*negative = FALSE; *over = FALSE;
	while (vh_isspace(*s)) ++s;
	if (!*s) goto noconv;
	if (*s == '-') { *negative = TRUE; ++s; } else if (*s == '+') ++s;
	if (*s == '0') {
		if ((base == 0 || base == 16) && g_ascii_toupper(s[1]) == 'X') { s += 2; base = 16; } else if (base == 0) base = 8;
	} else if (base == 0) base = 10;
	save = s; cutoff = G_MAXUINT64 / base; cutlim = G_MAXUINT64 % base; ui = 0;
	for (c = *s; c; c = *++s) {
		if (c >= '0' && c <= '9') c -= '0';
		else if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) c = g_ascii_toupper(c) - 'A' + 10;
		else break;
		if (c >= base) break;
		if (ui > cutoff || (ui == cutoff && c > cutlim)) overflow = TRUE;
		else { ui *= base; ui += c; }
	}
	if (s == save) goto noconv;
	if (endptr) *endptr = s;
	if (overflow) { *over = TRUE; errno = ERANGE; return G_MAXUINT64; }
	return ui;
noconv:
	if (endptr) {
		if (s - nptr >= 2 && g_ascii_toupper(s[-1]) == 'X' && s[-2] == '0') *endptr = &s[-1]; else *endptr = nptr;
	}
	return 0;
}
gint64 g_ascii_strtoll(const gchar *nptr, gchar **endptr, guint base) {
	gboolean neg, over; guint64 r = vh_parse_longlong(nptr, (const gchar**) endptr, base, &neg, &over);
	if (neg && r > (guint64) G_MININT64) { errno = ERANGE; return G_MININT64; }
	else if (!neg && r > (guint64) G_MAXINT64) { errno = ERANGE; return G_MAXINT64; }
	else if (neg) return - (gint64) r;
	return (gint64) r;
}
guint64 g_ascii_strtoull(const gchar *nptr, gchar **endptr, guint base) {
	gboolean neg, over; guint64 r = vh_parse_longlong(nptr, (const gchar**) endptr, base, &neg, &over);
	if (over) return r;
	return neg ? -r : r;
}

#ifdef VH_STRTOL_DIGITS /* digits only, at most that many */
long __isoc23_strtol(const char *s, char **end, int base) {
	long r = 0; int i, go = 1; unsigned char c = s[0];
	VH_BOUND(!end && (base == 10 || base == 16) && !vh_isspace(c) && c != '+' && c != '-' && !(c == '0' && (s[1] | 32) == 'x'), "plain digits");
	for (i = 0; i <= VH_STRTOL_DIGITS; i++) if (go) {
		int d; c = s[i]; d = c >= '0' && c <= '9' ? c - '0' : base == 16 && (c | 32) >= 'a' && (c | 32) <= 'f' ? (c | 32) - 'a' + 10 : -1;
		if (d < 0) go = 0; else { VH_BOUND(i < VH_STRTOL_DIGITS, "digits"); r = r * base + d; }
	}
	return r;
}
#else
long __isoc23_strtol(const char *s, char **end, int base) { return g_ascii_strtoll(s, end, base); }
#endif
long long __isoc23_strtoll(const char *s, char **end, int base) { return g_ascii_strtoll(s, end, base); }
unsigned long __isoc23_strtoul(const char *s, char **end, int base) { return g_ascii_strtoull(s, end, base); }
unsigned long long __isoc23_strtoull(const char *s, char **end, int base) { return g_ascii_strtoull(s, end, base); }

/* GString */
GString* g_string_sized_new(gsize n) { GString *s = malloc(sizeof(GString)); s->str = malloc(VH_GSTR_CAP); s->allocated_len = VH_GSTR_CAP; s->len = 0; s->str[0] = 0; return s; }
#define SNEED(s, n) VH_BOUND((n) < VH_GSTR_CAP, "GString capacity")
GString* g_string_new(const gchar *i) { GString *s = g_string_sized_new(2); if (i) { gsize k; for (k = 0; i[k]; k++) { SNEED(s, k); s->str[k] = i[k]; } s->str[k] = 0; s->len = k; } return s; }
GString* g_string_new_len(const gchar *i, gssize len) { GString *s; gsize k; if (len < 0) return g_string_new(i); s = g_string_sized_new(len); SNEED(s, (gsize)len); if (i) for (k = 0; k < (gsize)len; k++) s->str[k] = i[k]; s->len = len; s->str[len] = 0; return s; }
gchar* (g_string_free)(GString *s, gboolean f) { gchar *r = NULL; if (!s) return NULL; if (f) free(s->str); else r = s->str; free(s); return r; }
gchar* g_string_free_and_steal(GString *s) { return (g_string_free)(s, FALSE); }
GString* g_string_insert_len(GString *s, gssize pos, const gchar *v, gssize len) {
	gsize i, p, n; n = len < 0 ? strlen(v) : (gsize) len; p = pos < 0 ? s->len : (gsize) pos;
	if (n == 0) return s;
	SNEED(s, s->len + n);
	if (p < s->len) { for (i = s->len; i-- > p; ) s->str[i+n] = s->str[i]; }
	for (i = 0; i < n; i++) s->str[p+i] = v[i];
	s->len += n; s->str[s->len] = 0; return s;
}
GString* (g_string_append_len)(GString *s, const gchar *v, gssize len) {
	gsize i, n; n = len < 0 ? strlen(v) : (gsize) len;
	SNEED(s, s->len + n);
	for (i = 0; i < n; i++) s->str[s->len + i] = v[i];
	s->len += n; s->str[s->len] = 0; return s;
}
GString* (g_string_append)(GString *s, const gchar *v) { return (g_string_append_len)(s, v, -1); }
GString* (g_string_append_c)(GString *s, gchar c) { SNEED(s, s->len + 1); s->str[s->len++] = c; s->str[s->len] = 0; return s; }
GString* g_string_insert_c(GString *s, gssize pos, gchar c) { return g_string_insert_len(s, pos, &c, 1); }
GString* g_string_prepend_c(GString *s, gchar c) { return g_string_insert_len(s, 0, &c, 1); }
GString* g_string_prepend(GString *s, const gchar *v) { return g_string_insert_len(s, 0, v, -1); }
GString* g_string_prepend_len(GString *s, const gchar *v, gssize n) { return g_string_insert_len(s, 0, v, n); }
GString* (g_string_truncate)(GString *s, gsize n) { s->len = MIN(n, s->len); s->str[s->len] = 0; return s; }
GString* g_string_set_size(GString *s, gsize n) { if (n >= s->allocated_len) SNEED(s, n); s->len = n; s->str[n] = 0; return s; }
GString* g_string_assign(GString *s, const gchar *v) { if (s->str != v) { s->len = 0; s->str[0] = 0; (g_string_append_len)(s, v, -1); } return s; }
GString* g_string_erase(GString *s, gssize pos, gssize len) {
	gsize i; if (len < 0) len = s->len - pos;
	for (i = pos; i + len < s->len; i++) s->str[i] = s->str[i+len];
	s->len -= len; s->str[s->len] = 0; return s;
}
GString* g_string_ascii_down(GString *s) { gsize i; for (i = 0; i < s->len; i++) s->str[i] = g_ascii_tolower(s->str[i]); return s; }
GString* g_string_ascii_up(GString *s) { gsize i; for (i = 0; i < s->len; i++) s->str[i] = g_ascii_toupper(s->str[i]); return s; }
gboolean g_string_equal(const GString *a, const GString *b) { gsize i; if (a->len != b->len) return FALSE; for (i = 0; i < a->len; i++) if (a->str[i] != b->str[i]) return FALSE; return TRUE; }
guint g_string_hash(const GString *s) { guint h = 0; gsize i; for (i = 0; i < s->len; i++) h = (h << 5) - h + s->str[i]; return h; }

static void vh_append_u64(GString *s, guint64 v, unsigned base, unsigned width, int zero) {
	char tmp[24]; unsigned n = 0;
	do { unsigned d = v % base; tmp[n++] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v && n < 22);
	while (n < width && n < 22) tmp[n++] = zero ? '0' : ' ';
	while (n) (g_string_append_c)(s, tmp[--n]);
}
void g_string_append_vprintf(GString *s, const gchar *f, va_list ap) {
	for (; *f; f++) {
		unsigned l = 0, width = 0; int zero = 0, prec = -1;
		if (*f != '%') { (g_string_append_c)(s, *f); continue; }
		f++;
		if (*f == '0') { zero = 1; f++; }
		while (*f >= '0' && *f <= '9') width = 10*width + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = 10*prec + (*f++ - '0'); }
		while (*f == 'l' || *f == 'z' || *f == 'j') { l++; f++; }
		switch (*f) {
		case '%': (g_string_append_c)(s, '%'); break;
		case 'c': (g_string_append_c)(s, (char) va_arg(ap, int)); break;
		case 's': { const char *x = va_arg(ap, const char*); if (!x) x = "(null)"; if (prec >= 0) { int i; for (i = 0; i < prec && x[i]; i++) (g_string_append_c)(s, x[i]); } else (g_string_append_len)(s, x, -1); break; }
		case 'd': case 'i': { gint64 v = l ? va_arg(ap, long) : va_arg(ap, int); if (v < 0) { (g_string_append_c)(s, '-'); vh_append_u64(s, - (guint64) v, 10, width, zero); } else vh_append_u64(s, v, 10, width, zero); break; }
		case 'u': { guint64 v = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int); vh_append_u64(s, v, 10, width, zero); break; }
		case 'x': case 'X': { guint64 v = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int); vh_append_u64(s, v, 16, width, zero); break; }
		default: VH_BOUND(0, "unsupported printf format"); break;
		}
	}
}
void g_string_append_printf(GString *s, const gchar *f, ...) { va_list ap; va_start(ap, f); g_string_append_vprintf(s, f, ap); va_end(ap); }
void g_string_printf(GString *s, const gchar *f, ...) { va_list ap; (g_string_truncate)(s, 0); va_start(ap, f); g_string_append_vprintf(s, f, ap); va_end(ap); }
void g_string_vprintf(GString *s, const gchar *f, va_list ap) { (g_string_truncate)(s, 0); g_string_append_vprintf(s, f, ap); }

/* GError */
GQuark g_quark_from_string(const gchar *s) { return 1; }
GQuark g_quark_from_static_string(const gchar *s) { return 1; }
void vh_g_set_error(GError **err, GQuark domain, gint code, const gchar *format, ...) {
	GError *e; if (!err) return;
	e = malloc(sizeof(GError)); e->domain = domain; e->code = code; e->message = (gchar*) "error"; *err = e;
}
void g_error_free(GError *e) { free(e); }
GError* g_error_copy(const GError *e) { GError *n = malloc(sizeof(GError)); *n = *e; return n; }
void g_clear_error(GError **e) { if (e && *e) { free(*e); *e = NULL; } }
void g_propagate_error(GError **d, GError *s) { if (d) *d = s; else free(s); }

/* GArray / GByteArray / GPtrArray: hidden fields follow the public ones */
typedef struct { gchar *data; guint len; guint elt; gboolean clear; gboolean zt; } VArr;
static VArr* varr_new(guint elt, gboolean zt, gboolean clear) { VArr *a = malloc(sizeof(VArr)); a->data = clear ? calloc(1, VH_ARR_CAP) : malloc(VH_ARR_CAP); a->len = 0; a->elt = elt; a->clear = clear; a->zt = zt; return a; }
GArray* g_array_sized_new(gboolean zt, gboolean clear, guint elt, guint n) { return (GArray*) varr_new(elt, zt, clear); }
GArray* g_array_new(gboolean zt, gboolean clear, guint elt) { return (GArray*) varr_new(elt, zt, clear); }
gchar* g_array_free(GArray *x, gboolean f) { VArr *a = (VArr*) x; gchar *r = NULL; if (f) free(a->data); else r = a->data; free(a); return r; }
GArray* g_array_set_size(GArray *x, guint n) {
	VArr *a = (VArr*) x; VH_BOUND((gsize) n * a->elt <= VH_ARR_CAP, "GArray capacity");
	if (n > a->len && a->clear) { gsize i; for (i = (gsize) a->len * a->elt; i < (gsize) n * a->elt; i++) a->data[i] = 0; }
	a->len = n; return x;
}
GArray* g_array_append_vals(GArray *x, gconstpointer d, guint n) {
	VArr *a = (VArr*) x; VH_BOUND(((gsize) a->len + n) * a->elt <= VH_ARR_CAP, "GArray capacity");
	memcpy(a->data + (gsize) a->len * a->elt, d, (gsize) n * a->elt); a->len += n; return x;
}
GByteArray* g_byte_array_sized_new(guint n) { return (GByteArray*) varr_new(1, 0, 0); }
GByteArray* g_byte_array_new(void) { return (GByteArray*) varr_new(1, 0, 0); }
guint8* g_byte_array_free(GByteArray *x, gboolean f) { return (guint8*) g_array_free((GArray*) x, f); }
GByteArray* g_byte_array_set_size(GByteArray *a, guint n) { VH_BOUND(n <= VH_ARR_CAP, "GByteArray capacity"); a->len = n; return a; }
GByteArray* g_byte_array_append(GByteArray *a, const guint8 *d, guint n) { gsize i; VH_BOUND((gsize) a->len + n <= VH_ARR_CAP, "GByteArray capacity"); for (i = 0; i < n; i++) a->data[a->len + i] = d[i]; a->len += n; return a; }

#ifndef VH_PTRARR_CAP
#define VH_PTRARR_CAP 8
#endif
typedef struct { gpointer *pdata; guint len; GDestroyNotify df; } VPtr;
GPtrArray* g_ptr_array_new(void) { VPtr *a = malloc(sizeof(VPtr)); a->pdata = malloc(sizeof(gpointer) * VH_PTRARR_CAP); a->len = 0; a->df = NULL; return (GPtrArray*) a; }
GPtrArray* g_ptr_array_sized_new(guint n) { return g_ptr_array_new(); }
gpointer* g_ptr_array_free(GPtrArray *x, gboolean f) { gpointer *r = NULL; if (f) free(x->pdata); else r = x->pdata; free(x); return r; }
void g_ptr_array_add(GPtrArray *a, gpointer p) { VH_BOUND(a->len < VH_PTRARR_CAP, "GPtrArray capacity"); a->pdata[a->len++] = p; }
void g_ptr_array_set_size(GPtrArray *a, gint n) { guint i; VH_BOUND(n <= VH_PTRARR_CAP, "GPtrArray capacity"); for (i = a->len; i < (guint) n; i++) a->pdata[i] = NULL; a->len = n; }
gpointer g_ptr_array_remove_index_fast(GPtrArray *a, guint i) { gpointer r = a->pdata[i]; if (i != a->len - 1) a->pdata[i] = a->pdata[a->len-1]; a->len--; return r; }
gpointer g_ptr_array_remove_index(GPtrArray *a, guint i) { gpointer r = a->pdata[i]; for (; i + 1 < a->len; i++) a->pdata[i] = a->pdata[i+1]; a->len--; return r; }
gboolean g_ptr_array_remove_fast(GPtrArray *a, gpointer p) { guint i; for (i = 0; i < a->len; i++) if (a->pdata[i] == p) { g_ptr_array_remove_index_fast(a, i); return TRUE; } return FALSE; }
gboolean g_ptr_array_remove(GPtrArray *a, gpointer p) { guint i; for (i = 0; i < a->len; i++) if (a->pdata[i] == p) { g_ptr_array_remove_index(a, i); return TRUE; } return FALSE; }

/* GQueue / GList */
void g_queue_init(GQueue *q) { q->head = q->tail = NULL; q->length = 0; }
GQueue* g_queue_new(void) { GQueue *q = malloc(sizeof(GQueue)); g_queue_init(q); return q; }
void g_queue_push_tail_link(GQueue *q, GList *l) { l->next = NULL; l->prev = q->tail; if (q->tail) q->tail->next = l; else q->head = l; q->tail = l; q->length++; }
void g_queue_push_head_link(GQueue *q, GList *l) { l->prev = NULL; l->next = q->head; if (q->head) q->head->prev = l; else q->tail = l; q->head = l; q->length++; }
void g_queue_push_tail(GQueue *q, gpointer d) { GList *l = malloc(sizeof(GList)); l->data = d; g_queue_push_tail_link(q, l); }
void g_queue_push_head(GQueue *q, gpointer d) { GList *l = malloc(sizeof(GList)); l->data = d; g_queue_push_head_link(q, l); }
GList* g_queue_pop_head_link(GQueue *q) { GList *n = q->head; if (n) { q->head = n->next; if (q->head) { q->head->prev = NULL; n->next = NULL; } else q->tail = NULL; q->length--; } return n; }
GList* g_queue_pop_tail_link(GQueue *q) { GList *n = q->tail; if (n) { q->tail = n->prev; if (q->tail) { q->tail->next = NULL; n->prev = NULL; } else q->head = NULL; q->length--; } return n; }
gpointer g_queue_pop_head(GQueue *q) { GList *l = g_queue_pop_head_link(q); gpointer d; if (!l) return NULL; d = l->data; free(l); return d; }
gpointer g_queue_pop_tail(GQueue *q) { GList *l = g_queue_pop_tail_link(q); gpointer d; if (!l) return NULL; d = l->data; free(l); return d; }
GList* g_queue_peek_head_link(GQueue *q) { return q->head; }
GList* g_queue_peek_tail_link(GQueue *q) { return q->tail; }
gpointer g_queue_peek_head(GQueue *q) { return q->head ? q->head->data : NULL; }
gpointer g_queue_peek_tail(GQueue *q) { return q->tail ? q->tail->data : NULL; }
gboolean g_queue_is_empty(GQueue *q) { return q->head == NULL; }
guint g_queue_get_length(GQueue *q) { return q->length; }
void g_queue_unlink(GQueue *q, GList *l) {
	if (l->prev) l->prev->next = l->next; else if (q->head == l) q->head = l->next;
	if (l->next) l->next->prev = l->prev; else if (q->tail == l) q->tail = l->prev;
	l->next = NULL; l->prev = NULL; q->length--;
}
void g_queue_delete_link(GQueue *q, GList *l) { g_queue_unlink(q, l); free(l); }
void g_queue_foreach(GQueue *q, GFunc f, gpointer u) { GList *l = q->head; while (l) { GList *n = l->next; f(l->data, u); l = n; } }
void g_queue_clear(GQueue *q) { GList *l = q->head; while (l) { GList *n = l->next; free(l); l = n; } g_queue_init(q); }
void g_queue_free(GQueue *q) { g_queue_clear(q); free(q); }

/* GHashTable: association list in insertion order */
typedef struct { gpointer k[VH_HT_CAP], v[VH_HT_CAP]; gboolean used[VH_HT_CAP]; guint size; GHashFunc hf; GEqualFunc eq; GDestroyNotify kd, vd; } VHt;
GHashTable* g_hash_table_new_full(GHashFunc hf, GEqualFunc eq, GDestroyNotify kd, GDestroyNotify vd) { VHt *h = calloc(1, sizeof(VHt)); h->hf = hf; h->eq = eq; h->kd = kd; h->vd = vd; return (GHashTable*) h; }
GHashTable* g_hash_table_new(GHashFunc hf, GEqualFunc eq) { return g_hash_table_new_full(hf, eq, NULL, NULL); }
static int vht_find(VHt *h, gconstpointer k) { int i; for (i = 0; i < VH_HT_CAP; i++) if (h->used[i] && (h->eq ? h->eq(h->k[i], k) : h->k[i] == k)) return i; return -1; }
gpointer g_hash_table_lookup(GHashTable *x, gconstpointer k) { VHt *h = (VHt*) x; int i = vht_find(h, k); return i < 0 ? NULL : h->v[i]; }
gboolean g_hash_table_lookup_extended(GHashTable *x, gconstpointer k, gpointer *ok, gpointer *v) { VHt *h = (VHt*) x; int i = vht_find(h, k); if (i < 0) return FALSE; if (ok) *ok = h->k[i]; if (v) *v = h->v[i]; return TRUE; }
gboolean g_hash_table_contains(GHashTable *x, gconstpointer k) { return vht_find((VHt*) x, k) >= 0; }
static gboolean vht_put(VHt *h, gpointer k, gpointer v, gboolean repl) {
	int i = vht_find(h, k);
	if (i >= 0) { gpointer ov = h->v[i]; if (repl) { gpointer okk = h->k[i]; h->k[i] = k; if (h->kd) h->kd(okk); } else if (h->kd) h->kd(k); h->v[i] = v; if (h->vd) h->vd(ov); return FALSE; }
	for (i = 0; i < VH_HT_CAP; i++) if (!h->used[i]) { h->used[i] = TRUE; h->k[i] = k; h->v[i] = v; h->size++; return TRUE; }
	VH_BOUND(0, "GHashTable capacity"); return FALSE;
}
gboolean g_hash_table_insert(GHashTable *x, gpointer k, gpointer v) { return vht_put((VHt*) x, k, v, FALSE); }
gboolean g_hash_table_replace(GHashTable *x, gpointer k, gpointer v) { return vht_put((VHt*) x, k, v, TRUE); }
gboolean g_hash_table_remove(GHashTable *x, gconstpointer k) { VHt *h = (VHt*) x; int i = vht_find(h, k); if (i < 0) return FALSE; h->used[i] = FALSE; h->size--; if (h->kd) h->kd(h->k[i]); if (h->vd) h->vd(h->v[i]); return TRUE; }
void g_hash_table_remove_all(GHashTable *x) { VHt *h = (VHt*) x; int i; for (i = 0; i < VH_HT_CAP; i++) if (h->used[i]) { h->used[i] = FALSE; h->size--; if (h->kd) h->kd(h->k[i]); if (h->vd) h->vd(h->v[i]); } }
void g_hash_table_destroy(GHashTable *x) { g_hash_table_remove_all(x); free(x); }
guint g_hash_table_size(GHashTable *x) { return ((VHt*) x)->size; }
typedef struct { VHt *h; gpointer d2; gpointer d3; int pos; gboolean d5; gpointer d6; } VIt;
void g_hash_table_iter_init(GHashTableIter *it, GHashTable *x) { ((VIt*) it)->h = (VHt*) x; ((VIt*) it)->pos = 0; }
gboolean g_hash_table_iter_next(GHashTableIter *it, gpointer *k, gpointer *v) { VIt *i = (VIt*) it; for (; i->pos < VH_HT_CAP; i->pos++) if (i->h->used[i->pos]) { if (k) *k = i->h->k[i->pos]; if (v) *v = i->h->v[i->pos]; i->pos++; return TRUE; } return FALSE; }

gint vh_bit_nth_lsf(gulong mask, gint nth) {
	if (nth >= 63) return -1;
	if (nth >= 0) mask &= ~((2UL << nth) - 1);
	return mask ? __builtin_ctzl(mask) : -1;
}
/* the repo's own fatal-error exit: reaching it is a crash of the server */
void li_fatal(const char *filename, unsigned int line, const char *function, const gchar* msg) { vh_abort(msg); }
/* thread-private data of the (only) thread */
typedef struct { gpointer v; } VPriv;
GPrivate* g_private_new(GDestroyNotify n) { VPriv *p = malloc(sizeof(VPriv)); p->v = NULL; return (GPrivate*) p; }
gpointer (g_private_get)(GPrivate *p) { return ((VPriv*) p)->v; }
void (g_private_set)(GPrivate *p, gpointer v) { ((VPriv*) p)->v = v; }
void g_thread_init(gpointer v) { }
