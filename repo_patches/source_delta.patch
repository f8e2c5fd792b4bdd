From d4aa93254ff20a938410a16dce50681f96b4ddab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:55 +0000
Subject: [PATCH 01/22] fix: account memory when stealing a single chunk
 between queues sharing a limit

---
 src/main/chunk.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3308d9e..ae15fb0 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -740,7 +740,7 @@ goffset li_chunkqueue_steal_all(liChunkQueue *out, liChunkQueue *in) {
 /* steal the first chunk from in and append it to out, return number of bytes stolen */
 goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 	liChunk *c;
-	goffset length;
+	goffset length, mem = 0;
 	GList *l = g_queue_pop_head_link(&in->queue);
 	if (!l) return 0;
 	g_queue_push_tail_link(&out->queue, l);
@@ -751,17 +751,15 @@ goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 	in->length -= length;
 	out->bytes_in += length;
 	out->length += length;
+	if (c->type == STRING_CHUNK) mem = c->data.str->len;
+	else if (c->type == MEM_CHUNK) mem = c->mem->len;
+	else if (c->type == BUFFER_CHUNK) mem = c->data.buffer.length;
 	if (in->limit != out->limit) {
-		if (c->type == STRING_CHUNK) {
-			cqlimit_update(out, c->data.str->len);
-			cqlimit_update(in, - (goffset)c->data.str->len);
-		} else if (c->type == MEM_CHUNK) {
-			cqlimit_update(out, c->mem->len);
-			cqlimit_update(in, - (goffset)c->mem->len);
-		} else if (c->type == BUFFER_CHUNK) {
-			cqlimit_update(out, c->data.buffer.length);
-			cqlimit_update(in, - (goffset)c->data.buffer.length);
-		}
+		cqlimit_update(out, mem);
+		cqlimit_update(in, -mem);
+	} else {
+		out->mem_usage += mem;
+		in->mem_usage -= mem;
 	}
 	return length;
 }
-- 
2.43.0


From b5c2c3d50ed0816220fbd136dbf2d11f10a4b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:39 +0000
Subject: [PATCH 02/22] fix: terminate the decoded url when it ends in a
 truncated escape sequence

---
 src/common/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 1ab5ce0..7a23682 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -342,7 +342,7 @@ void li_url_decode(GString *path) {
 				src += 2;
 			} else {
 				/* end of string */
-				return;
+				break;
 			}
 		} else {
 			if (c < 32 || c == 127) c = '_';
-- 
2.43.0


From cab35141e6eef066d65e19e7074365fcf78e449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:39 +0000
Subject: [PATCH 03/22] fix: do not decode non-hex characters in url escape
 sequences

---
 src/common/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 7a23682..530266a 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -320,7 +320,7 @@ static int hex2int(unsigned char hex) {
 	} else {
 		res = hex - '0';
 	}
-	if (res > 15)
+	if (res < 0 || res > 15 || (hex > '9' && hex < 'A'))
 		res = -1;
 
 	return res;
-- 
2.43.0


From 90cb4a17d2f284760b456202a51812142c461369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:39 +0000
Subject: [PATCH 04/22] fix: set the length of newly allocated encoded strings

---
 src/common/encoding.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/encoding.c b/src/common/encoding.c
index 899a483..129e1b2 100644
--- a/src/common/encoding.c
+++ b/src/common/encoding.c
@@ -112,6 +112,7 @@ GString *li_string_encode_append(const gchar *str, GString *dest, liEncoding enc
 		pos = (guchar*) result->str + oldlen;
 	} else {
 		result = g_string_sized_new(new_len);
+		g_string_set_size(result, new_len);
 		pos = (guchar*) result->str;
 	}
 
-- 
2.43.0


From a7a2047e1bc3da10e0bf1bdb12a06fb4879922be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:39 +0000
Subject: [PATCH 05/22] fix: start search for free id at the correct bit

---
 src/common/idlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/idlist.c b/src/common/idlist.c
index 7504c53..ed244ed 100644
--- a/src/common/idlist.c
+++ b/src/common/idlist.c
@@ -77,7 +77,7 @@ gint li_idlist_get(liIDList *l) {
 	}
 
 	/* array entry != -1, search for free bit */
-	if (fndx == ndx) bndx = (l->next_free_id / UL_BITS) - 1;
+	if (fndx == ndx) bndx = (gint) (l->next_free_id % UL_BITS) - 1;
 	else bndx = -1;
 	bndx = g_bit_nth_lsf(~u, bndx);
 
-- 
2.43.0


From 35fa312b0a042089e1aaf32adeac16394ec046b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:18 +0000
Subject: [PATCH 06/22] fix: reject Content-Length values that are not plain
 decimal numbers

---
 src/main/request.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/request.c b/src/main/request.c
index 86a0cbb..f7680c5 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -194,6 +194,14 @@ gboolean li_request_validate_header(liConnection *con) {
 		gint64 r;
 		char *err;
 
+		/* g_ascii_strtoll accepts empty strings, leading whitespace and signs */
+		if (*val < '0' || *val > '9') {
+			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", val);
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
+		errno = 0;
 		r = g_ascii_strtoll(val, &err, 10);
 		if (*err != '\0') {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
-- 
2.43.0


From 3eaf443f76320e605b646fcafa79732a96ab6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:55 +0000
Subject: [PATCH 07/22] fix: reject requests with conflicting Content-Length
 headers

---
 src/main/request.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index f7680c5..37a99e1 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -188,12 +188,14 @@ gboolean li_request_validate_header(liConnection *con) {
 	}
 
 	/* content-length */
-	hh = li_http_header_lookup(req->headers, CONST_STR_LEN("content-length"));
-	if (hh) {
-		const gchar *val = LI_HEADER_VALUE(hh);
+	for (l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length")); l; l = li_http_header_find_next(l, CONST_STR_LEN("content-length"))) {
+		const gchar *val;
 		gint64 r;
 		char *err;
 
+		hh = (liHttpHeader*) l->data;
+		val = LI_HEADER_VALUE(hh);
+
 		/* g_ascii_strtoll accepts empty strings, leading whitespace and signs */
 		if (*val < '0' || *val > '9') {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", val);
@@ -228,6 +230,12 @@ gboolean li_request_validate_header(liConnection *con) {
 			}
 		}
 
+		if (-1 != con->mainvr->request.content_length && r != con->mainvr->request.content_length) {
+			_VR_DEBUG(con->srv, con->mainvr, "%s", "conflicting content-length headers (Status: 400)");
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
 		con->mainvr->request.content_length = r;
 	}
 
-- 
2.43.0


From f38158f2b8f8bde8477e60aa021e417e5aae5c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:55 +0000
Subject: [PATCH 08/22] fix: reject GET/HEAD requests with a chunked body
 instead of parsing the body as next request

---
 src/main/request.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 37a99e1..7fff4c7 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -296,9 +296,9 @@ gboolean li_request_validate_header(liConnection *con) {
 	switch(con->mainvr->request.http_method) {
 	case LI_HTTP_METHOD_GET:
 	case LI_HTTP_METHOD_HEAD:
-		/* content-length is forbidden for those */
-		if (con->mainvr->request.content_length > 0) {
-			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length -> 400");
+		/* a request body is forbidden for those */
+		if (con->mainvr->request.content_length > 0 || transfer_encoding_chunked) {
+			VR_ERROR(con->mainvr, "%s", "GET/HEAD with request body -> 400");
 
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 2885a361b2d0f0941bbe24f7a817da172ebe102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:36 +0000
Subject: [PATCH 09/22] fix: do not duplicate path/query of request targets
 containing a fragment

---
 src/main/url_parser.rl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/url_parser.rl b/src/main/url_parser.rl
index 37de7cb..8d4c054 100644
--- a/src/main/url_parser.rl
+++ b/src/main/url_parser.rl
@@ -42,7 +42,8 @@
 	unreserved  = alpha | digit | "-" | "." | "_" | "~";
 
 	# many clients don't encode these, e.g. curl, wget, ...
-	delims      = "<" | ">" | "#" | "%" | '"';
+	# ("#" is not part of this: it starts the fragment, which gets dropped)
+	delims      = "<" | ">" | "%" | '"';
 	unwise      = " " | "{" | "}" | "|" | "\\" | "^" | "[" | "]" | "`";
 
 	pchar = unreserved | pct_encoded | sub_delims | ":" | "@" | delims | unwise;
@@ -70,7 +71,7 @@
 	authority   = ( userinfo "@" )? (host >mark_host %save_host) ( ":" port )?;
 
 	query = ( pchar | "/" | "?" )* >mark %save_query;
-	fragment = ( pchar | "/" | "?" )*;
+	fragment = ( pchar | "/" | "?" | "#" )*;
 
 	URI_path = (path ( "?" query )?) ( "#" fragment )?;
 
-- 
2.43.0


From 63dc1d47550a8eac42c409d51c315e91aac6b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:14 +0000
Subject: [PATCH 10/22] fix: replace the scheme of absolute request targets
 instead of appending to it

---
 src/main/url_parser.rl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/url_parser.rl b/src/main/url_parser.rl
index 8d4c054..6436b02 100644
--- a/src/main/url_parser.rl
+++ b/src/main/url_parser.rl
@@ -29,6 +29,7 @@
 		li_g_string_append_len(uri->raw_path, mark-1, fpc - mark+1); /* include '?' in append */
 	}
 	action save_scheme {
+		g_string_truncate(uri->scheme, 0);
 		li_g_string_append_len(uri->scheme, mark, fpc - mark);
 	}
 
-- 
2.43.0


From f602b5d539e3a8ee51d58def11fadf7002b5ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:51 +0000
Subject: [PATCH 11/22] fix: remove line breaks when appending to or
 overwriting headers, too

---
 src/main/http_headers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/http_headers.c b/src/main/http_headers.c
index 9d6b0ae..9fe226d 100644
--- a/src/main/http_headers.c
+++ b/src/main/http_headers.c
@@ -140,6 +140,7 @@ void li_http_header_append(liHttpHeaders *headers, const gchar *key, size_t keyl
 		s = h->data->str + oldlen;
 		memcpy(s, ", ", 2);
 		memcpy(s+2, val, valuelen);
+		_http_header_sanitize(h);
 	}
 }
 
@@ -156,6 +157,7 @@ void li_http_header_overwrite(liHttpHeaders *headers, const gchar *key, size_t k
 		g_string_set_size(h->data, keylen + 2 + valuelen);
 		/* only overwrite value */
 		memcpy(h->data->str + keylen + 2, val, valuelen);
+		_http_header_sanitize(h);
 	}
 }
 
-- 
2.43.0


From 5f7ef114fdb4de1d36bf6e1b64178272a0a02814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:02 +0000
Subject: [PATCH 12/22] fix: emit all hex digits of chunk sizes of 4 GB and
 more

---
 src/main/filter_chunked.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/filter_chunked.c b/src/main/filter_chunked.c
index e165788..8fe3ce3 100644
--- a/src/main/filter_chunked.c
+++ b/src/main/filter_chunked.c
@@ -8,7 +8,7 @@ static void http_chunk_append_len(liChunkQueue *cq, size_t len) {
 
 	a = g_byte_array_sized_new(sizeof(len) * 2 + 2);
 
-	for (i = 0; i < 8 && len; i++) {
+	for (i = 0; i < sizeof(len) * 2 && len; i++) {
 		len >>= 4;
 	}
 
-- 
2.43.0


From 3044787aeb419a0e0736f64785ab76e51faf720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:58 +0000
Subject: [PATCH 13/22] fix: do not send Content-Length together with
 Transfer-Encoding: chunked

---
 src/main/response.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/response.c b/src/main/response.c
index 09eb87a..936a0dd 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -62,8 +62,11 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
-		/* TODO: maybe someone set a content length header? */
-		if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
+		if (vr->request.http_method == LI_HTTP_METHOD_HEAD && NULL != li_http_header_lookup(vr->response.headers, CONST_STR_LEN("content-length"))) {
+			/* no body to send; keep the content length someone else set */
+		} else if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
+			/* a message must not have both content-length and transfer-encoding */
+			li_http_header_remove(vr->response.headers, CONST_STR_LEN("content-length"));
 			vr->response.transfer_encoding |= LI_HTTP_TRANSFER_ENCODING_CHUNKED;
 			li_http_header_append(vr->response.headers, CONST_STR_LEN("Transfer-Encoding"), CONST_STR_LEN("chunked"));
 		}
-- 
2.43.0


From 391dc3342dc4bc61dce760b5a78502b80bc6ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:25 +0000
Subject: [PATCH 14/22] fix: parse the response following an interim (100/102)
 response in the same chunk

---
 src/main/http_response_parser.rl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/http_response_parser.rl b/src/main/http_response_parser.rl
index 9c8a9cb..1b4b5c3 100644
--- a/src/main/http_response_parser.rl
+++ b/src/main/http_response_parser.rl
@@ -167,12 +167,13 @@ liHandlerResult li_http_response_parse(liVRequest *vr, liHttpResponseCtx *ctx) {
 
 	if (li_http_response_handle_finished(ctx)) return LI_HANDLER_GO_ON;
 
-	if (LI_HANDLER_GO_ON != (res = li_chunk_parser_prepare(&ctx->chunk_ctx))) return res;
-
 	while (!li_http_response_parser_has_error(ctx)) {
 		char *p, *pe;
 		GError *err = NULL;
 
+		/* the parser gets reset after dropping an interim response, so this has to be done for each iteration */
+		if (LI_HANDLER_GO_ON != (res = li_chunk_parser_prepare(&ctx->chunk_ctx))) return res;
+
 		if (LI_HANDLER_GO_ON != (res = li_chunk_parser_next(&ctx->chunk_ctx, &p, &pe, &err))) {
 			if (NULL != err) {
 				VR_ERROR(vr, "%s", err->message);
-- 
2.43.0


From d4c8f5c3e5544b3469765199a8b95af2d863dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:43 +0000
Subject: [PATCH 15/22] fix: return the parsed address for IPv6 addresses
 without ::

---
 src/common/ip_parsers.rl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index aef15e6..f26e0cb 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -134,7 +134,11 @@ gboolean li_parse_ipv6(const char *str, guint8 *ip, guint *network, guint16 *por
 	%% write exec noend;
 
 	if (!res || cs < ipv6_parser_first_final) return FALSE;
-	if (!compressed) return (prec == 8);
+	if (!compressed) {
+		if (prec != 8) return FALSE;
+		memcpy(ip, predata, 16);
+		return TRUE;
+	}
 	if (prec + postc > 7) return FALSE;
 	for ( ; prec < 8-postc; prec++) predata[prec] = 0;
 	for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
-- 
2.43.0


From 8a5a5c83253400fae87a0d941b5c7e87e44eec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 16/22] fix: do not overflow parsing numbers in ip addresses

---
 src/common/ip_parsers.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index f26e0cb..c360887 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -5,7 +5,7 @@
 	machine ipv4_parser;
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	action dc_step { if (tmpval <= 65535) tmpval = 10*tmpval + (fc - '0'); } # larger values are never valid
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
@@ -58,7 +58,7 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 	action mark { mark = fpc; }
 
 	action dc_start { tmpval = 0; }
-	action dc_step { tmpval = 10*tmpval + (fc - '0'); }
+	action dc_step { if (tmpval <= 65535) tmpval = 10*tmpval + (fc - '0'); } # larger values are never valid
 
 	decint = (digit digit**) >dc_start $dc_step;
 	octet = decint %{
-- 
2.43.0


From 6623440d50be35e3ffad54ab7a5bec8de5187592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:31 +0000
Subject: [PATCH 17/22] fix: avoid undefined shift calculating the ipv4 netmask

---
 src/common/ip_parsers.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index c360887..f5f52ad 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -15,7 +15,7 @@
 	ipv4_data = octet "." octet "." octet "." octet;
 	netmask = "/" decint %{
 		if (tmpval > 32) { res = FALSE; fbreak; }
-		*netmask = htonl(tmpval ? ~((1 << (32-tmpval)) - 1) : 0);
+		*netmask = htonl(tmpval ? ~((1u << (32-tmpval)) - 1) : 0);
 	};
 	port = ":" decint %{
 		if (tmpval > 65535) { res = FALSE; fbreak; }
-- 
2.43.0


From 855068230258a80820e36087d5afbe1fba61fd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:25 +0000
Subject: [PATCH 18/22] fix: reject IPv6 addresses with a trailing colon

---
 src/common/ip_parsers.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index f5f52ad..0ed5079 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -98,7 +98,7 @@ gboolean li_parse_ipv4(const char *str, guint32 *ip, guint32 *netmask, guint16 *
 		postc += 2;
 	};
 
-	ipv6_data = ((pregroup ":")+ | ":") ((":" @ { compressed = TRUE; } (postgroup ":")* (postgroup | post_ipv4)?) | (pregroup | pre_ipv4));
+	ipv6_data = ((pregroup ":")+ | ":") ((":" @ { compressed = TRUE; } ((postgroup ":")* (postgroup | post_ipv4))?) | (pregroup | pre_ipv4));
 
 	# so we don't need pe/eof vars
 	end = (space | 0) @{ cs = ipv6_parser_first_final; fbreak; };
-- 
2.43.0


From 72deef8813e5460d54a183bfb07a1414be34a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:44 +0000
Subject: [PATCH 19/22] fix: descend into the right branch removing radix tree
 entries longer than 32 bits

---
 src/common/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/radix.c b/src/common/radix.c
index c86b718..e4dc5b3 100644
--- a/src/common/radix.c
+++ b/src/common/radix.c
@@ -211,7 +211,7 @@ static gpointer radixtree_remove(liRadixNode **nodeptr, rdxBase *input, guint32
 
 	if (mask & 0x1) {
 		/* next "layer" */
-		input++;
+		current = *++input;
 		bits -= RDXBITS;
 		nextnode = (current & RDX_BIT(0)) ? &node->right : &node->left;
 	} else {
-- 
2.43.0


From bf18b6e4cae07515093985a991f5b84cffc3dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:53 +0000
Subject: [PATCH 20/22] fix: keep the wait queue consistent after popping only
 some elements

---
 src/common/waitqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/waitqueue.c b/src/common/waitqueue.c
index 966b9d6..89bebc7 100644
--- a/src/common/waitqueue.c
+++ b/src/common/waitqueue.c
@@ -167,6 +167,7 @@ guint li_waitqueue_pop_ready(liWaitQueue *queue, liWaitQueueElem **head) {
 
 			if (elem->prev) {
 				elem->prev->next = NULL;
+				elem->prev = NULL;
 			}
 
 			return i;
-- 
2.43.0


From 042f7a920f7c5f99cda68d12b45e6a557ec37e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:23 +0000
Subject: [PATCH 21/22] fix: insert exactly the captures of reversed and open
 pattern ranges

---
 src/main/pattern.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index d82ff9f..9f9cad9 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -320,7 +320,7 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 		}
 	} else {
 		from = MIN(from, a->len - 1); /* => from+1 is defined */
-		for (i = from + 1; i-- >= to; ) {
+		for (i = from + 1; i-- > to; ) {
 			GString *str = g_array_index(a, GString*, i);
 			if (NULL != str) {
 				li_g_string_append_len(pattern_result, GSTR_LEN(str));
@@ -332,20 +332,23 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 void li_pattern_regex_cb(GString *pattern_result, guint from, guint to, gpointer data) {
 	GMatchInfo *match_info = data;
 	guint i;
-	gint start_pos, end_pos;
+	gint start_pos, end_pos, captures;
 
 	if (NULL == match_info) return;
 
+	captures = g_match_info_get_match_count(match_info);
+	if (captures <= 0) return;
+
 	if (HEDLEY_LIKELY(from <= to)) {
-		to = MIN(to, G_MAXINT);
+		to = MIN(to, (guint) captures - 1);
 		for (i = from; i <= to; i++) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
 		}
 	} else {
-		from = MIN(from, G_MAXINT); /* => from+1 is defined */
-		for (i = from + 1; --i >= to; ) {
+		from = MIN(from, (guint) captures - 1); /* => from+1 is defined */
+		for (i = from + 1; i-- > to; ) {
 			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
-- 
2.43.0


From be99a05ebdd4386ab7910e743b0befe89600dfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:42 +0000
Subject: [PATCH 22/22] fix: recognize letter placeholders in userdir patterns
 independent of the following character

---
 src/modules/mod_userdir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_userdir.c b/src/modules/mod_userdir.c
index b587a04..0b3e9fc 100644
--- a/src/modules/mod_userdir.c
+++ b/src/modules/mod_userdir.c
@@ -197,7 +197,7 @@ static liAction* userdir_create(liServer *srv, liWorker *wrk, liPlugin* p, liVal
 			c_last = c+1;
 			part.type = USERDIR_PART_USERNAME;
 			g_array_append_val(parts, part);
-		} else if (*c == '$' && *(c+1) >= '1' && *(c+2) <= '9') {
+		} else if (*c == '$' && *(c+1) >= '1' && *(c+1) <= '9') {
 			/* letter */
 			if (c - c_last > 0) {
 				/* push last string */
-- 
2.43.0

