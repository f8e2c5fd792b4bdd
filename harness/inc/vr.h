/* minimal worker / vrequest / connection objects */
#include <lighttpd/base.h>
#include <lighttpd/plugin_core.h>
#include "vh.h"
static liServer vr_srv; static liWorker vr_wrk; static liVRequest vr_vr; static liConInfo vr_info; static liConnection vr_con;
static liOptionValue vr_options[64]; static liOptionPtrValue *vr_optionptrs[32];
static liVRequest* vr_init(liConInfo *info) {
	vr_wrk.srv = &vr_srv; vr_vr.wrk = &vr_wrk; vr_vr.coninfo = info; vr_vr.options = vr_options; vr_vr.optionptrs = vr_optionptrs;
	info->keep_alive = TRUE;
	return &vr_vr;
}
static liConnection* vr_con_init(void) {
	vr_con.srv = &vr_srv; vr_con.wrk = &vr_wrk; vr_con.mainvr = vr_init(&vr_con.info);
	return &vr_con;
}
