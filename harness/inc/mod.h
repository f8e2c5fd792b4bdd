/* drives a module through its registration: options, actions and setups as the server sees them */
#include "inc/vr.h"
#include <lighttpd/value.h>
#include <../src/common/value.c> /* the repo's value constructors, compiled with the server's value type */
static liPlugin md_p; static liModules md_mods; static liModule md_mod;
liPlugin* li_plugin_register(liServer *srv, const gchar *name, liPluginInitCB init, gpointer userdata) { md_p.name = name; if (init) init(srv, &md_p, userdata); return &md_p; }
static liAction md_act; static liActionFuncCB md_func; static gpointer md_param; static liActionCleanupCB md_cleanup; static liActionFreeCB md_free; static unsigned md_nact;
liAction* li_action_new_function(liActionFuncCB func, liActionCleanupCB cleanup, liActionFreeCB fr, gpointer param) { md_func = func; md_cleanup = cleanup; md_free = fr; md_param = param; md_nact++; return &md_act; }
static int md_eq(const char *a, const char *b) { unsigned i; for (i = 0; a[i] && a[i] == b[i]; i++) ; return a[i] == b[i]; }
static void md_init(gboolean (*init)(liModules*, liModule*)) { md_mods.version = MODULE_VERSION; md_mods.sizeof_off_t = sizeof(off_t); md_mods.main = &vr_srv; VH_ASSERT(init(&md_mods, &md_mod), "the module loads"); }
static liAction* md_action(const char *name, liValue *val) { const liPluginAction *a; for (a = md_p.actions; a && a->name; a++) if (md_eq(a->name, name)) return a->create_action(&vr_srv, &vr_wrk, &md_p, val, a->userdata); VH_ASSERT(0, "the action exists"); return NULL; }
static liHandlerResult md_run(liVRequest *vr, gpointer *ctx) { return md_func(vr, md_param, ctx); }
/* configuration values */
static liValue* vs(const char *s) { return li_value_new_string(g_string_new(s)); }
static liValue* vl0(void) { return li_value_new_list(); }
static liValue* vl1(liValue *a) { liValue *l = li_value_new_list(); li_value_list_append(l, a); return l; }
static liValue* vl2(liValue *a, liValue *b) { liValue *l = vl1(a); li_value_list_append(l, b); return l; }
static liValue* vl3(liValue *a, liValue *b, liValue *c) { liValue *l = vl2(a, b); li_value_list_append(l, c); return l; }
/* the handler answers the request itself (li_vrequest_handle_direct): at most once */
static int md_handled, md_taken;
#ifndef MD_NO_DIRECT
gboolean li_vrequest_handle_direct(liVRequest *vr) { if (md_taken) return FALSE; md_handled++; md_taken = 1; vr->state = LI_VRS_HANDLE_RESPONSE_HEADERS; return TRUE; }
gboolean li_vrequest_is_handled(liVRequest *vr) { return md_taken; }
#endif
