From 9605b686f10c96b45b5623c4201ad4ad44c0a514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:18 +0000
Subject: [PATCH 001/139] fix: backend pool shutdown must not read freed worker
 (and free the right slice size)

---
 src/main/backends.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 4aa0932..04fbe29 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -74,6 +74,7 @@ struct liBackendPool_p {
 
 	GMutex *lock;
 	liBackendWorkerPool *worker_pools;
+	guint worker_count; /* number of entries in worker_pools */
 
 	guint active, reserved, idle, pending, total; /* [pool] connection counts. */
 
@@ -804,6 +805,7 @@ static void S_backend_pool_init(liWorker *wrk, liBackendPool_p *pool) {
 	if (pool->worker_pools == NULL) {
 		guint i, l = wrk->srv->worker_count;
 		pool->worker_pools = g_slice_alloc0(sizeof(liBackendWorkerPool) * l);
+		pool->worker_count = l;
 
 		for (i = 0; i < l; ++i) {
 			liBackendWorkerPool *wpool = &pool->worker_pools[i];
@@ -870,8 +872,8 @@ static void backend_pool_worker_shutdown_done(gpointer cbdata, gpointer fdata, G
 	pool->public.config->callbacks->free_cb(&pool->public);
 
 	if (pool->worker_pools != NULL) {
-		liServer *srv = pool->worker_pools[0].wrk->srv;
-		g_slice_free1(sizeof(liBackendPool_p) * srv->worker_count, pool->worker_pools);
+		/* workers might already be freed here */
+		g_slice_free1(sizeof(liBackendWorkerPool) * pool->worker_count, pool->worker_pools);
 	}
 
 	g_mutex_free(pool->lock);
-- 
2.43.0


From 0eeabc3313bd96c4d43b2a96a7e51bf8c35429ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:54 +0000
Subject: [PATCH 002/139] fix: reject conflicting or malformed Content-Length
 request headers

---
 src/main/request.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 86a0cbb..41aa5c4 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -188,12 +188,23 @@ gboolean li_request_validate_header(liConnection *con) {
 	}
 
 	/* content-length */
-	hh = li_http_header_lookup(req->headers, CONST_STR_LEN("content-length"));
-	if (hh) {
-		const gchar *val = LI_HEADER_VALUE(hh);
+	l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length"));
+	for ( ; l ; l = li_http_header_find_next(l, CONST_STR_LEN("content-length")) ) {
+		const gchar *val;
 		gint64 r;
 		char *err;
 
+		hh = (liHttpHeader*) l->data;
+		val = LI_HEADER_VALUE(hh);
+
+		/* only digits allowed: no sign, no whitespace, not empty */
+		if (!g_ascii_isdigit(*val)) {
+			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", val);
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+
+		errno = 0;
 		r = g_ascii_strtoll(val, &err, 10);
 		if (*err != '\0') {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
@@ -202,22 +213,17 @@ gboolean li_request_validate_header(liConnection *con) {
 		}
 
 		/**
-			* negative content-length is not supported
-			* and is a bad request
+			* check if we had a overrun in the string conversion
 			*/
-		if (r < 0) {
-			bad_request(con, 400); /* bad request */
+		if (r == G_MAXINT64 && errno == ERANGE) {
+			bad_request(con, 413); /* Request Entity Too Large */
 			return FALSE;
 		}
 
-		/**
-			* check if we had a over- or underrun in the string conversion
-			*/
-		if (r == G_MININT64 || r == G_MAXINT64) {
-			if (errno == ERANGE) {
-				bad_request(con, 413); /* Request Entity Too Large */
-				return FALSE;
-			}
+		/* multiple content-length headers with different values: can't determine where the request ends */
+		if (con->mainvr->request.content_length != -1 && con->mainvr->request.content_length != r) {
+			bad_request(con, 400); /* bad request */
+			return FALSE;
 		}
 
 		con->mainvr->request.content_length = r;
-- 
2.43.0


From 24890b772da5494e2598e2fdc32f74527fe02d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:54 +0000
Subject: [PATCH 003/139] fix: reject GET/HEAD with chunked request body
 instead of parsing the body as next request

---
 src/main/request.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 41aa5c4..7db8e5d 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -286,9 +286,9 @@ gboolean li_request_validate_header(liConnection *con) {
 	switch(con->mainvr->request.http_method) {
 	case LI_HTTP_METHOD_GET:
 	case LI_HTTP_METHOD_HEAD:
-		/* content-length is forbidden for those */
-		if (con->mainvr->request.content_length > 0) {
-			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length -> 400");
+		/* content-length and chunked encoding are forbidden for those */
+		if (con->mainvr->request.content_length > 0 || transfer_encoding_chunked) {
+			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length or chunked encoding -> 400");
 
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 263857acd7937ebb97b906fb979bae40ff32c54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:54 +0000
Subject: [PATCH 004/139] fix: reset chunked decoder state when a connection
 object is reused

---
 src/main/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 12ec924..9811aa3 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -762,6 +762,8 @@ static void li_connection_reset2(liConnection *con) {
 
 	li_http_request_parser_reset(&con->req_parser_ctx);
 
+	memset(&con->in_chunked_decode_state, 0, sizeof(con->in_chunked_decode_state));
+
 	g_string_truncate(con->info.remote_addr_str, 0);
 	li_sockaddr_clear(&con->info.remote_addr);
 	g_string_truncate(con->info.local_addr_str, 0);
-- 
2.43.0


From dc7acde88b88a1fe28d9373e2bb225bb3029b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:54 +0000
Subject: [PATCH 005/139] fix: close connection after the response if the
 request body was not read completely

---
 src/main/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 9811aa3..05d2529 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -561,6 +561,9 @@ void li_connection_request_done(liConnection *con) {
 
 	li_plugins_handle_close(con);
 
+	/* remaining data of the request body must not be interpreted as the next request */
+	if (!con->in.out->is_closed) con->info.keep_alive = FALSE;
+
 	s = g_atomic_int_get(&con->srv->dest_state);
 	if (con->info.keep_alive &&  (LI_SERVER_RUNNING == s || LI_SERVER_WARMUP == s) && NULL != con->con_sock.data) {
 		li_connection_reset_keep_alive(con);
-- 
2.43.0


From faeb87b365d153ac10978d07825740b79084f2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:54 +0000
Subject: [PATCH 006/139] fix: don't send Content-Length together with
 Transfer-Encoding: chunked

---
 src/main/response.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/response.c b/src/main/response.c
index 09eb87a..74b3f2b 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -62,9 +62,13 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
-		/* TODO: maybe someone set a content length header? */
-		if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
+		if (vr->request.http_method == LI_HTTP_METHOD_HEAD
+		    && NULL != li_http_header_lookup(vr->response.headers, CONST_STR_LEN("Content-Length"))) {
+			/* no body follows; don't mix Content-Length and Transfer-Encoding */
+		} else if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
 			vr->response.transfer_encoding |= LI_HTTP_TRANSFER_ENCODING_CHUNKED;
+			/* Content-Length must not be sent together with Transfer-Encoding */
+			li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
 			li_http_header_append(vr->response.headers, CONST_STR_LEN("Transfer-Encoding"), CONST_STR_LEN("chunked"));
 		}
 	} else {
-- 
2.43.0


From ec4e082fa840c3c902afdcef82a35db2f4c095dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:51 +0000
Subject: [PATCH 007/139] fix: send Content-Length: 0 with 205 responses, drop
 Content-Length from 1xx/204

---
 src/main/response.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/response.c b/src/main/response.c
index 74b3f2b..1106702 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -55,6 +55,12 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 		/* They never have a content-body/length */
 		if (NULL != response_body) li_chunkqueue_skip_all(response_body);
 		if (!upgraded) raw_out->is_closed = TRUE;
+		if (vr->response.http_status == 205) {
+			/* clients don't know (unlike 1xx, 204 and 304) that there is no body */
+			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), CONST_STR_LEN("0"));
+		} else if (vr->response.http_status != 304) {
+			li_http_header_remove(vr->response.headers, CONST_STR_LEN("Content-Length"));
+		}
 	} else if (response_complete) {
 		if (vr->request.http_method != LI_HTTP_METHOD_HEAD || response_body->length > 0) {
 			/* do not send content-length: 0 if backend already skipped content generation for HEAD */
-- 
2.43.0


From bdc3be68452fd32e98adf3ebcc23b15dd43a3ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:03 +0000
Subject: [PATCH 008/139] fix: handle final backend response following an
 interim response in the same data block

---
 src/main/http_response_parser.rl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/http_response_parser.rl b/src/main/http_response_parser.rl
index 9c8a9cb..9d8017b 100644
--- a/src/main/http_response_parser.rl
+++ b/src/main/http_response_parser.rl
@@ -167,12 +167,13 @@ liHandlerResult li_http_response_parse(liVRequest *vr, liHttpResponseCtx *ctx) {
 
 	if (li_http_response_handle_finished(ctx)) return LI_HANDLER_GO_ON;
 
-	if (LI_HANDLER_GO_ON != (res = li_chunk_parser_prepare(&ctx->chunk_ctx))) return res;
-
 	while (!li_http_response_parser_has_error(ctx)) {
 		char *p, *pe;
 		GError *err = NULL;
 
+		/* parser gets reset after dropping "100 Continue" and similar headers, so this needs to be in the loop */
+		if (LI_HANDLER_GO_ON != (res = li_chunk_parser_prepare(&ctx->chunk_ctx))) return res;
+
 		if (LI_HANDLER_GO_ON != (res = li_chunk_parser_next(&ctx->chunk_ctx, &p, &pe, &err))) {
 			if (NULL != err) {
 				VR_ERROR(vr, "%s", err->message);
-- 
2.43.0


From 9f50ca479a0f21a9b453438c0d0a5c9a5c46da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:32 +0000
Subject: [PATCH 009/139] fix: account queued data when adding a limit to a
 non-empty chunkqueue

---
 src/main/chunk.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3308d9e..b9b814c 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -449,7 +449,11 @@ void li_chunkqueue_free(liChunkQueue *cq) {
 }
 
 void li_chunkqueue_use_limit(liChunkQueue *cq, goffset limit) {
-	if (!cq->limit) cq->limit = li_cqlimit_new();
+	if (!cq->limit) {
+		cq->limit = li_cqlimit_new();
+		/* account data already in the queue, it will get subtracted later */
+		cq->limit->current = cq->mem_usage;
+	}
 	li_cqlimit_set_limit(cq->limit, limit);
 }
 
-- 
2.43.0


From 071ad245e1f1294b488458daefa6e09bf1139d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:23 +0000
Subject: [PATCH 010/139] fix: abort response if the source of the deflate
 filter is lost before it was complete

---
 src/modules/mod_deflate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 4c77772..fcb25d5 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -156,7 +156,8 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	int rc;
 
 	if (NULL == f->in) {
-		f->out->is_closed = TRUE;
+		/* didn't handle f->in->is_closed? abort forwarding */
+		if (!f->out->is_closed) li_stream_reset(&f->stream);
 		return LI_HANDLER_GO_ON;
 	}
 
-- 
2.43.0


From b783fb4a4919c6b046ea2921840ca4a86d2d9b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:23 +0000
Subject: [PATCH 011/139] fix: don't treat a reset connection as regular end of
 stream

---
 src/main/network.c              | 3 ++-
 src/main/stream_simple_socket.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/network.c b/src/main/network.c
index 5b020c9..579f7fb 100644
--- a/src/main/network.c
+++ b/src/main/network.c
@@ -138,7 +138,8 @@ liNetworkStatus li_network_read(int fd, liChunkQueue *cq, goffset read_max, liBu
 				return LI_NETWORK_STATUS_WAIT_FOR_EVENT;
 			case ECONNRESET:
 			case ETIMEDOUT:
-				return LI_NETWORK_STATUS_CONNECTION_CLOSE;
+				/* connection aborted; this is not a clean end of the stream (but also not worth an error message) */
+				return LI_NETWORK_STATUS_FATAL_ERROR;
 			default:
 				g_set_error(err, LI_NETWORK_ERROR, 0, "li_network_read: oops, read from fd=%d failed: %s", fd, g_strerror(errno) );
 				return LI_NETWORK_STATUS_FATAL_ERROR;
diff --git a/src/main/stream_simple_socket.c b/src/main/stream_simple_socket.c
index 269af98..07e9c9a 100644
--- a/src/main/stream_simple_socket.c
+++ b/src/main/stream_simple_socket.c
@@ -85,8 +85,10 @@ static void stream_simple_socket_read(liIOStream *stream, gpointer *data) {
 	case LI_NETWORK_STATUS_SUCCESS:
 		break;
 	case LI_NETWORK_STATUS_FATAL_ERROR:
-		ERROR(wrk->srv, "network read fatal error: %s", NULL != err ? err->message : "(unknown)");
-		g_error_free(err);
+		if (NULL != err) {
+			ERROR(wrk->srv, "network read fatal error: %s", err->message);
+			g_error_free(err);
+		}
 		li_stream_simple_socket_close(stream, TRUE);
 		break;
 	case LI_NETWORK_STATUS_CONNECTION_CLOSE:
-- 
2.43.0


From b9064aa680ce50d42e4c1f95ce82e3269e1747da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:34 +0000
Subject: [PATCH 012/139] fix: abort responses if the backend connection ends
 before the announced Content-Length or the header is complete

---
 src/main/stream_http_response.c | 71 ++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 2981f0c..4ce764b 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -8,6 +8,7 @@ struct liStreamHttpResponse {
 	liStream stream;
 	liVRequest *vr;
 	gboolean keepalive, response_headers_finished, transfer_encoding_chunked, wait_for_close;
+	gboolean no_body; /* response doesn't have a body, even if it has a content-length */
 	goffset content_length;
 	liFilterChunkedDecodeState chunked_decode_state;
 };
@@ -20,6 +21,8 @@ static void check_response_header(liStreamHttpResponse* shr) {
 	/* if protocol doesn't support keep-alive just wait for stream end */
 	shr->wait_for_close = !shr->keepalive;
 	shr->content_length = -1;
+	shr->no_body = LI_HTTP_METHOD_HEAD == shr->vr->request.http_method
+		|| 204 == resp->http_status || 304 == resp->http_status;
 
 	/* Transfer-Encoding: chunked */
 	l = li_http_header_find_first(resp->headers, CONST_STR_LEN("transfer-encoding"));
@@ -95,29 +98,9 @@ static void check_response_header(liStreamHttpResponse* shr) {
 		return;
 	}
 
-	if (!shr->transfer_encoding_chunked && shr->keepalive) {
-		/**
-		 * if protocol has HTTP "keepalive" concept and encoding isn't chunked,
-		 * we need to check for content-length or "connection: close" indications.
-		 * otherwise we won't know when the response is done
-		 */
-		liHttpHeader *hh;
-
-		switch (shr->parse_response_ctx.http_version) {
-		case LI_HTTP_VERSION_1_0:
-			if (!li_http_header_is(shr->vr->response.headers, CONST_STR_LEN("connection"), CONST_STR_LEN("keep-alive")))
-				shr->wait_for_close = TRUE;
-			break;
-		case LI_HTTP_VERSION_1_1:
-			if (li_http_header_is(shr->vr->response.headers, CONST_STR_LEN("connection"), CONST_STR_LEN("close")))
-				shr->wait_for_close = TRUE;
-			break;
-		case LI_HTTP_VERSION_UNSET:
-			break;
-		}
-
-		/* content-length */
-		hh = li_http_header_lookup(shr->vr->response.headers, CONST_STR_LEN("content-length"));
+	if (!shr->transfer_encoding_chunked) {
+		/* content-length (also used to detect incomplete bodies if the protocol has no "keepalive") */
+		liHttpHeader *hh = li_http_header_lookup(shr->vr->response.headers, CONST_STR_LEN("content-length"));
 		if (hh) {
 			const gchar *val = LI_HEADER_VALUE(hh);
 			gint64 r;
@@ -152,8 +135,29 @@ static void check_response_header(liStreamHttpResponse* shr) {
 			}
 
 			shr->content_length = r;
-			shr->wait_for_close = FALSE;
 		}
+	}
+
+	if (!shr->transfer_encoding_chunked && shr->keepalive) {
+		/**
+		 * if protocol has HTTP "keepalive" concept and encoding isn't chunked,
+		 * we need to check for content-length or "connection: close" indications.
+		 * otherwise we won't know when the response is done
+		 */
+		switch (shr->parse_response_ctx.http_version) {
+		case LI_HTTP_VERSION_1_0:
+			if (!li_http_header_is(shr->vr->response.headers, CONST_STR_LEN("connection"), CONST_STR_LEN("keep-alive")))
+				shr->wait_for_close = TRUE;
+			break;
+		case LI_HTTP_VERSION_1_1:
+			if (li_http_header_is(shr->vr->response.headers, CONST_STR_LEN("connection"), CONST_STR_LEN("close")))
+				shr->wait_for_close = TRUE;
+			break;
+		case LI_HTTP_VERSION_UNSET:
+			break;
+		}
+
+		if (shr->content_length >= 0) shr->wait_for_close = FALSE;
 
 		if (!shr->wait_for_close && shr->content_length < 0) {
 			if (LI_HTTP_VERSION_1_1 == shr->parse_response_ctx.http_version) {
@@ -210,9 +214,12 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 			li_stream_disconnect(&shr->stream);
 		}
 	} else if (shr->wait_for_close) {
-		li_chunkqueue_steal_all(shr->stream.out, shr->stream.source->out);
+		goffset moved;
+		moved = li_chunkqueue_steal_all(shr->stream.out, shr->stream.source->out);
+		if (shr->content_length > 0) shr->content_length = MAX(0, shr->content_length - moved);
 		if (shr->stream.source->out->is_closed) {
-			shr->stream.out->is_closed = TRUE;
+			/* only disconnecting without closing aborts an incomplete response */
+			if (shr->content_length <= 0 || shr->no_body) shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
 		}
 	} else {
@@ -225,6 +232,10 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 		if (shr->content_length == 0) {
 			shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
+		} else if (shr->stream.source->out->is_closed) {
+			/* only disconnecting without closing aborts an incomplete response */
+			if (shr->no_body) shr->stream.out->is_closed = TRUE;
+			li_stream_disconnect(&shr->stream);
 		}
 	}
 	li_stream_notify(&shr->stream);
@@ -243,11 +254,17 @@ static void stream_http_response_cb(liStream *stream, liStreamEvent event) {
 		li_stream_disconnect(stream);
 		break;
 	case LI_STREAM_DISCONNECTED_SOURCE:
-		shr->vr = NULL;
 		if (!stream->out->is_closed) {
 			/* "abort" */
+			if (NULL != shr->vr && NULL == stream->dest && shr->vr->state < LI_VRS_WRITE_CONTENT) {
+				/* not connected yet, so nobody else would notice it */
+				shr->vr->state = LI_VRS_ERROR;
+				li_vrequest_joblist_append(shr->vr);
+			}
+			shr->vr = NULL;
 			li_stream_disconnect_dest(stream);
 		}
+		shr->vr = NULL;
 		break;
 	case LI_STREAM_DESTROY:
 		li_http_response_parser_clear(&shr->parse_response_ctx);
-- 
2.43.0


From 68b98bbf9607df45c4f1a80d45efebd59a570615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:52 +0000
Subject: [PATCH 013/139] fix: fastcgi: don't leave requests hanging if the
 backend closes without (complete) END_REQUEST

---
 src/modules/fastcgi_stream.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 346d215..d16f6a9 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -519,7 +519,11 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 					fastcgi_reset(ctx);
 					return;
 				}
-				if (in->length < 8) return; /* wait for more */
+				if (in->length < 8) {
+					/* wait for more - unless there won't be more */
+					if (in->is_closed) fastcgi_reset(ctx);
+					return;
+				}
 
 				{
 					unsigned char endreq[8];
@@ -628,6 +632,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 		} else {
 			ctx->stdin_closed = ctx->stdout_closed = ctx->stderr_closed = ctx->request_done = TRUE;
 			ctx->fcgi_in.out->is_closed = TRUE;
+			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
 		}
 	}
-- 
2.43.0


From 3c0b5d31e22d744ab3f6ac529c7dad0087a75a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:04 +0000
Subject: [PATCH 014/139] fix: deliver data received before a connection reset,
 then abort

---
 include/lighttpd/stream.h       |  1 +
 src/main/stream_simple_socket.c | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/lighttpd/stream.h b/include/lighttpd/stream.h
index a9ef81e..bf162f4 100644
--- a/include/lighttpd/stream.h
+++ b/include/lighttpd/stream.h
@@ -72,6 +72,7 @@ struct liIOStream {
 	guint in_closed:1, out_closed:1;
 	guint can_read:1, can_write:1; /* set to FALSE if you got EAGAIN */
 	guint throttled_in:1, throttled_out:1;
+	guint in_aborted:1; /* reading failed, but there was still data to be handled first */
 
 	/* throttle needs to be handled by the liIOStreamCB cb */
 	liThrottleState *throttle_in;
diff --git a/src/main/stream_simple_socket.c b/src/main/stream_simple_socket.c
index 07e9c9a..51c5ebf 100644
--- a/src/main/stream_simple_socket.c
+++ b/src/main/stream_simple_socket.c
@@ -49,6 +49,12 @@ static void stream_simple_socket_read(liIOStream *stream, gpointer *data) {
 	int fd = li_event_io_fd(&stream->io_watcher);
 	off_t max_read = 256 * 1024; /* 256k */
 	liChunkQueue *raw_in = stream->stream_in.out;
+	goffset start_in_bytes = raw_in->bytes_in;
+
+	if (stream->in_aborted) {
+		li_stream_simple_socket_close(stream, TRUE);
+		return;
+	}
 
 	if (NULL != stream->throttle_in) {
 		max_read = li_throttle_query(wrk, stream->throttle_in, max_read, stream_simple_socket_read_throttle_notify, stream);
@@ -89,6 +95,11 @@ static void stream_simple_socket_read(liIOStream *stream, gpointer *data) {
 			ERROR(wrk->srv, "network read fatal error: %s", err->message);
 			g_error_free(err);
 		}
+		if (start_in_bytes != raw_in->bytes_in) {
+			/* still got data before the error; close in next read */
+			stream->in_aborted = TRUE;
+			break;
+		}
 		li_stream_simple_socket_close(stream, TRUE);
 		break;
 	case LI_NETWORK_STATUS_CONNECTION_CLOSE:
-- 
2.43.0


From df8f08d439d4c393528cd40740c7c80ef24a40d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:16 +0000
Subject: [PATCH 015/139] fix: don't decode url escapes which aren't made of
 two hexadecimal digits

---
 src/common/utils.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 1ab5ce0..9149383 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -310,20 +310,7 @@ gint li_receive_fd(gint s, gint *fd) { /* read fd from unix socket s */
  * returns -1 on invalid input.
  */
 static int hex2int(unsigned char hex) {
-	int res;
-	if (hex >= 'A') { /* 'A' < 'a': hex >= 'A' --> hex >= 'a' */
-		if (hex >= 'a') {
-			res = hex - 'a' + 10;
-		} else {
-			res = hex - 'A' + 10;
-		}
-	} else {
-		res = hex - '0';
-	}
-	if (res > 15)
-		res = -1;
-
-	return res;
+	return g_ascii_xdigit_value(hex);
 }
 
 void li_url_decode(GString *path) {
-- 
2.43.0


From d1f2a1afa415a1bcfebd691104cd130b239f7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:16 +0000
Subject: [PATCH 016/139] fix: truncate decoded url path if it ends with an
 incomplete escape

---
 src/common/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utils.c b/src/common/utils.c
index 9149383..8737e57 100644
--- a/src/common/utils.c
+++ b/src/common/utils.c
@@ -329,7 +329,7 @@ void li_url_decode(GString *path) {
 				src += 2;
 			} else {
 				/* end of string */
-				return;
+				break;
 			}
 		} else {
 			if (c < 32 || c == 127) c = '_';
-- 
2.43.0


From 3e7d1f853000690f2a4f813472455792ee29d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:51 +0000
Subject: [PATCH 017/139] fix: url scheme of absolute request targets was
 appended to the connection scheme

---
 src/main/request.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 7db8e5d..21082c9 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -122,12 +122,6 @@ gboolean li_request_validate_header(liConnection *con) {
 	GList *l;
 	gboolean transfer_encoding_chunked = FALSE;
 
-	if (con->info.is_ssl) {
-		li_g_string_append_len(req->uri.scheme, CONST_STR_LEN("https"));
-	} else {
-		li_g_string_append_len(req->uri.scheme, CONST_STR_LEN("http"));
-	}
-
 	switch (req->http_version) {
 	case LI_HTTP_VERSION_1_0:
 		if (!li_http_header_is(req->headers, CONST_STR_LEN("connection"), CONST_STR_LEN("keep-alive")))
@@ -173,6 +167,14 @@ gboolean li_request_validate_header(liConnection *con) {
 		return FALSE;
 	}
 
+	/* the scheme is given by the connection, not by an absolute url */
+	g_string_truncate(req->uri.scheme, 0);
+	if (con->info.is_ssl) {
+		li_g_string_append_len(req->uri.scheme, CONST_STR_LEN("https"));
+	} else {
+		li_g_string_append_len(req->uri.scheme, CONST_STR_LEN("http"));
+	}
+
 	if (req->uri.host->len == 0 && req->uri.authority->len != 0) {
 		if (!li_parse_hostname(&req->uri)) {
 			bad_request(con, 400); /* bad request */
-- 
2.43.0


From e086cda663f8903a862b9b3da1473791c6857413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:14 +0000
Subject: [PATCH 018/139] fix: request targets with a fragment got path and
 query duplicated

---
 src/main/url_parser.rl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/url_parser.rl b/src/main/url_parser.rl
index 37de7cb..c3e9fa3 100644
--- a/src/main/url_parser.rl
+++ b/src/main/url_parser.rl
@@ -42,7 +42,8 @@
 	unreserved  = alpha | digit | "-" | "." | "_" | "~";
 
 	# many clients don't encode these, e.g. curl, wget, ...
-	delims      = "<" | ">" | "#" | "%" | '"';
+	# ('#' always starts the fragment)
+	delims      = "<" | ">" | "%" | '"';
 	unwise      = " " | "{" | "}" | "|" | "\\" | "^" | "[" | "]" | "`";
 
 	pchar = unreserved | pct_encoded | sub_delims | ":" | "@" | delims | unwise;
@@ -70,7 +71,7 @@
 	authority   = ( userinfo "@" )? (host >mark_host %save_host) ( ":" port )?;
 
 	query = ( pchar | "/" | "?" )* >mark %save_query;
-	fragment = ( pchar | "/" | "?" )*;
+	fragment = ( pchar | "/" | "?" | "#" )*;
 
 	URI_path = (path ( "?" query )?) ( "#" fragment )?;
 
-- 
2.43.0


From b57efd816396b3e743dc878049ddcaeb8f1e2368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:24 +0000
Subject: [PATCH 019/139] fix: entity tags didn't change for some changes of
 size and modification time

---
 src/main/etag.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/etag.c b/src/main/etag.c
index 873cc66..258ada6 100644
--- a/src/main/etag.c
+++ b/src/main/etag.c
@@ -118,13 +118,16 @@ gboolean li_http_response_handle_cachable(liVRequest *vr) {
 
 void li_etag_mutate(GString *mut, GString *etag) {
 	guint i;
-	guint32 h;
+	guint64 h;
 
-	for (h=0, i=0; i < etag->len; ++i) h = (h<<5)^(h>>27)^(etag->str[i]);
+	/* 64-bit FNV-1a; just rotating and xor'ing lets changes in different digits cancel each other */
+	for (h=G_GUINT64_CONSTANT(14695981039346656037), i=0; i < etag->len; ++i) {
+		h = (h ^ (guchar) etag->str[i]) * G_GUINT64_CONSTANT(1099511628211);
+	}
 
 	g_string_truncate(mut, 0);
 	li_g_string_append_len(mut, CONST_STR_LEN("\""));
-	li_string_append_int(mut, (guint64) h);
+	li_string_append_int(mut, (gint64) (h & G_MAXINT64));
 	li_g_string_append_len(mut, CONST_STR_LEN("\""));
 }
 
-- 
2.43.0


From c0bb54da58308a1f26167f800126020462bb0847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:49 +0000
Subject: [PATCH 020/139] fix: ignore syntactically invalid Range headers with
 last byte before first byte

---
 src/main/http_range_parser.rl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/http_range_parser.rl b/src/main/http_range_parser.rl
index d0afec5..00ed5c1 100644
--- a/src/main/http_range_parser.rl
+++ b/src/main/http_range_parser.rl
@@ -32,6 +32,11 @@
 		s->range_start = tmp;
 	}
 	action last_byte {
+		if (tmp < s->range_start) {
+			/* syntactically invalid, ignore the complete header */
+			s->cs = http_range_parser_error;
+			return LI_PARSE_HTTP_RANGE_INVALID;
+		}
 		s->range_end = tmp;
 		found = TRUE;
 	}
-- 
2.43.0


From 698e7a6b3c2263626fba862c59ecd15b320d4113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:44 +0000
Subject: [PATCH 021/139] fix: accept etag.use lists with a single entry

---
 src/main/plugin_core.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index e916202..2cfa39c 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -1549,10 +1549,8 @@ static gboolean core_option_etag_use_parse(liServer *srv, liWorker *wrk, liPlugi
 	}
 
 	/* Need manual type check, as resulting option type is number */
-	if (LI_VALUE_LIST != li_value_type(val)) {
-		ERROR(srv, "etag.use option expects a list of strings, parameter is of type %s", li_value_type_string(val));
-		return FALSE;
-	}
+	/* a list with a single entry got unwrapped */
+	if (LI_VALUE_LIST != li_value_type(val)) li_value_wrap_in_list(val);
 	LI_VALUE_FOREACH(v, val)
 		if (LI_VALUE_STRING != li_value_type(v)) {
 			ERROR(srv, "etag.use option expects a list of strings, entry #%u is of type %s", _v_i, li_value_type_string(v));
-- 
2.43.0


From 6ac2afef1226c224dcf7c89441276be21043dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:28 +0000
Subject: [PATCH 022/139] fix: If-None-Match takes precedence over
 If-Modified-Since even if etags are disabled

---
 src/main/etag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/etag.c b/src/main/etag.c
index 258ada6..9c3867e 100644
--- a/src/main/etag.c
+++ b/src/main/etag.c
@@ -139,6 +139,9 @@ void li_etag_set_header(liVRequest *vr, struct stat *st, gboolean *cachable) {
 
 	if (0 == flags) {
 		li_http_header_remove(vr->response.headers, CONST_STR_LEN("etag"));
+
+		/* If-None-Match can't match without etag, and takes precedence over If-Modified-Since */
+		if (c_able != LI_TRIFALSE) c_able = li_http_response_handle_cachable_etag(vr, NULL);
 	} else {
 		g_string_truncate(tmp_str, 0);
 	
-- 
2.43.0


From 41e3631ec599bbaaef708ae4dd1f123be0e6c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:45 +0000
Subject: [PATCH 023/139] fix: etag.use with an empty list didn't disable etags

---
 src/main/plugin.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main/plugin.c b/src/main/plugin.c
index 6c99e48..4db83e0 100644
--- a/src/main/plugin.c
+++ b/src/main/plugin.c
@@ -493,8 +493,10 @@ void li_release_optionptr(liServer *srv, liOptionPtrValue *value) {
 	g_slice_free(liOptionPtrValue, value);
 }
 
-static liValue* option_value(liValue *val) {
+/* no parameters select the default value, unless the option handles (empty) lists itself */
+static liValue* option_value(liServerOption *sopt, liValue *val) {
 	if (li_value_list_has_len(val, 1)) return li_value_list_at(val, 0);
+	if (NULL != sopt && LI_VALUE_NONE == sopt->type) return val;
 	if (li_value_list_has_len(val, 0)) return NULL;
 	return val;
 }
@@ -512,13 +514,13 @@ liAction *li_plugin_config_action(liServer *srv, liWorker *wrk, const gchar *nam
 	} else if (NULL != (sopt = find_option(srv, name))) {
 		liOptionSet setting;
 
-		if (!li_parse_option(srv, wrk, sopt, name, option_value(val), &setting)) goto exit;
+		if (!li_parse_option(srv, wrk, sopt, name, option_value(sopt, val), &setting)) goto exit;
 
 		a = li_action_new_setting(setting);
 	} else if (NULL != (soptptr = find_optionptr(srv, name))) {
 		liOptionPtrSet setting;
 
-		if (!li_parse_optionptr(srv, wrk, soptptr, name, option_value(val), &setting)) goto exit;
+		if (!li_parse_optionptr(srv, wrk, soptptr, name, option_value(NULL, val), &setting)) goto exit;
 
 		a = li_action_new_settingptr(setting);
 	} else if (NULL != g_hash_table_lookup(srv->setups, name)) {
@@ -547,14 +549,14 @@ gboolean li_plugin_config_setup(liServer *srv, const char *name, liValue *val) {
 	} else if (NULL != (sopt = find_option(srv, name))) {
 		liOptionSet setting;
 
-		if (!li_parse_option(srv, srv->main_worker, sopt, name, option_value(val), &setting)) goto exit;
+		if (!li_parse_option(srv, srv->main_worker, sopt, name, option_value(sopt, val), &setting)) goto exit;
 
 		g_array_index(srv->option_def_values, liOptionValue, sopt->index) = setting.value;
 		result = TRUE;
 	} else if (NULL != (soptptr = find_optionptr(srv, name))) {
 		liOptionPtrSet setting;
 
-		if (!li_parse_optionptr(srv, srv->main_worker, soptptr, name, option_value(val), &setting)) goto exit;
+		if (!li_parse_optionptr(srv, srv->main_worker, soptptr, name, option_value(NULL, val), &setting)) goto exit;
 
 		li_release_optionptr(srv, g_array_index(srv->optionptr_def_values, liOptionPtrValue*, soptptr->index));
 		g_array_index(srv->optionptr_def_values, liOptionPtrValue*, soptptr->index) = setting.value;
-- 
2.43.0


From 93b1d582251bd4722c3cc1e054cea1a9faa03e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:45 +0000
Subject: [PATCH 024/139] fix: deflate: don't answer requests other than GET
 and HEAD with 304

---
 src/modules/mod_deflate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index fcb25d5..8279bfb 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -493,6 +493,9 @@ static gboolean cached_handle_etag(liVRequest *vr, gboolean debug, liHttpHeader
 	g_string_truncate(hh_etag->data, hh_etag->keylen + 2);
 	li_g_string_append_len(hh_etag->data, GSTR_LEN(s));
 
+	/* 304 is only a valid response for GET and HEAD */
+	if (LI_HTTP_METHOD_GET != vr->request.http_method && LI_HTTP_METHOD_HEAD != vr->request.http_method) return FALSE;
+
 	if (200 == vr->response.http_status && li_http_response_handle_cachable(vr)) {
 		if (debug || CORE_OPTION(LI_CORE_OPTION_DEBUG_REQUEST_HANDLING).boolean) {
 			VR_DEBUG(vr, "%s", "deflate: etag handling => 304 Not Modified");
-- 
2.43.0


From 09de3a36bcdf0f3af2ea334c3c7b08c80c0f953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:22 +0000
Subject: [PATCH 025/139] fix: refuse too large request headers before they are
 complete

---
 src/main/http_request_parser.rl | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/main/http_request_parser.rl b/src/main/http_request_parser.rl
index 23008d1..87d646d 100644
--- a/src/main/http_request_parser.rl
+++ b/src/main/http_request_parser.rl
@@ -144,6 +144,19 @@ void li_http_request_parser_clear(liHttpRequestCtx *ctx) {
 	g_string_free(ctx->h_value, TRUE);
 }
 
+/* sanity check: if the whole http request header is larger than 64kbytes, then something probably went wrong */
+static gboolean request_header_too_large(liVRequest *vr, liHttpRequestCtx *ctx) {
+	if (ctx->chunk_ctx.bytes_in <= 64*1024) return FALSE;
+
+	VR_INFO(vr,
+		"request header too large. limit: 64kb, received: %s",
+		li_counter_format((guint64)ctx->chunk_ctx.bytes_in, COUNTER_BYTES, vr->wrk->tmp_str)->str
+	);
+
+	vr->response.http_status = 413; /* Request Entity Too Large */
+	return TRUE;
+}
+
 liHandlerResult li_http_request_parse(liVRequest *vr, liHttpRequestCtx *ctx) {
 	liHandlerResult res;
 
@@ -160,6 +173,8 @@ liHandlerResult li_http_request_parse(liVRequest *vr, liHttpRequestCtx *ctx) {
 				VR_ERROR(vr, "%s", err->message);
 				g_error_free(err);
 			}
+			/* don't wait for the end of a header we won't accept (there might be no room to receive it) */
+			if (LI_HANDLER_WAIT_FOR_EVENT == res && request_header_too_large(vr, ctx)) return LI_HANDLER_ERROR;
 			return res;
 		}
 
@@ -170,16 +185,7 @@ liHandlerResult li_http_request_parse(liVRequest *vr, liHttpRequestCtx *ctx) {
 
 	if (li_http_request_parser_has_error(ctx)) return LI_HANDLER_ERROR;
 	if (li_http_request_parser_is_finished(ctx)) {
-		/* sanity check: if the whole http request header is larger than 64kbytes, then something probably went wrong */
-		if (ctx->chunk_ctx.bytes_in > 64*1024) {
-			VR_INFO(vr,
-				"request header too large. limit: 64kb, received: %s",
-				li_counter_format((guint64)ctx->chunk_ctx.bytes_in, COUNTER_BYTES, vr->wrk->tmp_str)->str
-			);
-
-			vr->response.http_status = 413; /* Request Entity Too Large */
-			return LI_HANDLER_ERROR;
-		}
+		if (request_header_too_large(vr, ctx)) return LI_HANDLER_ERROR;
 
 		li_chunkqueue_skip(ctx->chunk_ctx.cq, ctx->chunk_ctx.bytes_in);
 		return LI_HANDLER_GO_ON;
-- 
2.43.0


From 0dac63e975e4c1a21c2496c024b9354f1bbcf95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:12 +0000
Subject: [PATCH 026/139] fix: strip trailing tabs from header values too

---
 src/main/http_request_parser.rl  | 1 +
 src/main/http_response_parser.rl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/main/http_request_parser.rl b/src/main/http_request_parser.rl
index 87d646d..e7a805a 100644
--- a/src/main/http_request_parser.rl
+++ b/src/main/http_request_parser.rl
@@ -37,6 +37,7 @@
 			switch (ctx->h_value->str[i]) {
 			case '\r':
 			case '\n':
+			case '\t':
 			case ' ':
 				continue;
 			}
diff --git a/src/main/http_response_parser.rl b/src/main/http_response_parser.rl
index 9d8017b..f1525ca 100644
--- a/src/main/http_response_parser.rl
+++ b/src/main/http_response_parser.rl
@@ -46,6 +46,7 @@
 			switch (ctx->h_value->str[i]) {
 			case '\r':
 			case '\n':
+			case '\t':
 			case ' ':
 				continue;
 			}
-- 
2.43.0


From 6c29bd8d1cd593e50b5e8240d105da6e4acda714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:12 +0000
Subject: [PATCH 027/139] fix: don't keep line breaks of folded header lines in
 header values

---
 src/main/http_request_parser.rl  | 4 ++++
 src/main/http_response_parser.rl | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/main/http_request_parser.rl b/src/main/http_request_parser.rl
index e7a805a..632bcfd 100644
--- a/src/main/http_request_parser.rl
+++ b/src/main/http_request_parser.rl
@@ -44,6 +44,10 @@
 			break;
 		}
 		g_string_truncate(ctx->h_value, i+1);
+		/* unfold header continuation lines */
+		for (i = 0; i < ctx->h_value->len; i++) {
+			if ('\r' == ctx->h_value->str[i] || '\n' == ctx->h_value->str[i]) ctx->h_value->str[i] = ' ';
+		}
 	}
 	action header {
 		li_http_header_insert(ctx->request->headers, GSTR_LEN(ctx->h_key), GSTR_LEN(ctx->h_value));
diff --git a/src/main/http_response_parser.rl b/src/main/http_response_parser.rl
index f1525ca..fbaf80e 100644
--- a/src/main/http_response_parser.rl
+++ b/src/main/http_response_parser.rl
@@ -53,6 +53,10 @@
 			break;
 		}
 		g_string_truncate(ctx->h_value, i+1);
+		/* unfold header continuation lines */
+		for (i = 0; i < ctx->h_value->len; i++) {
+			if ('\r' == ctx->h_value->str[i] || '\n' == ctx->h_value->str[i]) ctx->h_value->str[i] = ' ';
+		}
 	}
 	action header {
 		if (ctx->accept_cgi && li_strncase_equal(ctx->h_key, CONST_STR_LEN("Status"))) {
-- 
2.43.0


From 35a606b0c9fa2e3ef93ac2e32caba05be47cc21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:57 +0000
Subject: [PATCH 028/139] fix: announce the connection close if the request
 body isn't complete when the response starts

---
 src/main/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 05d2529..95fdd4d 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -427,6 +427,8 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			if (0 == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE).number) {
 				con->info.keep_alive = FALSE;
 			}
+			/* can't reuse the connection unless the complete request body was received */
+			if (!con->in.out->is_closed) con->info.keep_alive = FALSE;
 			li_response_send_headers(vr, raw_out, out, FALSE);
 		}
 
-- 
2.43.0


From 101905a619c6f887ca3a3e244b3546e4aca6f3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:16 +0000
Subject: [PATCH 029/139] fix: don't finish a request before its response was
 passed to the socket

A refused request could be finished (and the connection closed) while the
response was still waiting to be passed on to the (simple tcp or tls)
socket stream, if other data was read in between; the response was lost.
---
 src/main/connection.c     | 1 +
 src/modules/mod_gnutls.c  | 1 +
 src/modules/mod_openssl.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 95fdd4d..35df956 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -77,6 +77,7 @@ static void simple_tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 	li_connection_simple_tcp(&data->con, stream, &data->simple_tcp_context, event);
 
 	if (NULL != data->con && data->con->out_has_all_data
+	    && 0 == data->con->out.out->length /* not passed to the socket stream yet */
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)) {
 		li_stream_simple_socket_flush(stream);
 		li_connection_request_done(data->con);
diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index ce030da..bb10f53 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -347,6 +347,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
 	if (NULL != conctx->con && conctx->con->out_has_all_data
+	    && 0 == conctx->con->out.out->length /* not passed to the tls stream yet */
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)
 	    && li_streams_empty(conctx->con->con_sock.raw_out, NULL)) {
 		li_stream_simple_socket_flush(stream);
diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index b3cec9f..3ab79f2 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -95,6 +95,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
 	if (NULL != conctx->con && conctx->con->out_has_all_data
+	    && 0 == conctx->con->out.out->length /* not passed to the tls stream yet */
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)
 	    && li_streams_empty(conctx->con->con_sock.raw_out, NULL)) {
 		li_stream_simple_socket_flush(stream);
-- 
2.43.0


From 98863ba99e16d4f545c21ff0554f596f74a0169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:49 +0000
Subject: [PATCH 030/139] fix: repeated request headers could override
 explicitly set environment variables

Only the first of several headers with the same name was replaced by the
variable from the configuration; backends also got the others.
---
 src/main/environment.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/environment.c b/src/main/environment.c
index 2fcc9d7..9461539 100644
--- a/src/main/environment.c
+++ b/src/main/environment.c
@@ -189,7 +189,10 @@ void li_environment_dup2cgi(liVRequest *vr, liEnvironmentDup *envdup, liAddEnvir
 			li_g_string_append_len(tmp, h->data->str, h->keylen);
 			cgi_fix_header_name(tmp);
 
-			add_env_var(envdup, callback, param, GSTR_LEN(tmp), h->data->str + h->keylen+2, h->data->len - (h->keylen+2));
+			/* explicitly set variables replace all headers with that name; they are added below */
+			if (NULL != g_hash_table_lookup(envdup->table, tmp)) continue;
+
+			callback(param, GSTR_LEN(tmp), h->data->str + h->keylen+2, h->data->len - (h->keylen+2));
 		}
 	}
 
-- 
2.43.0


From f67ffaf2207a2925ab5d5663a5baa3f084250859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:21 +0000
Subject: [PATCH 031/139] fix: auth: passwords containing a NUL byte matched if
 the part before it was right

---
 src/modules/mod_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index 89c66e8..0ad0052 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -381,7 +381,8 @@ static liHandlerResult auth_basic(liVRequest *vr, gpointer param, gpointer *cont
 		} else {
 			GString user = li_const_gstring(username, password - username - 1);
 			GString pass = li_const_gstring(password, len - (password - username));
-			if (bdata->backend(vr, &user, &pass, bdata, debug)) {
+			/* backends handle passwords as \0 terminated strings, don't ignore anything after a \0 */
+			if (strlen(pass.str) == pass.len && bdata->backend(vr, &user, &pass, bdata, debug)) {
 				auth_ok = TRUE;
 
 				li_environment_set(&vr->env, CONST_STR_LEN("REMOTE_USER"), username, password - username - 1);
-- 
2.43.0


From 90966e079c1f26aa870a0db81355a1ab77d7b0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:21 +0000
Subject: [PATCH 032/139] fix: auth: notice user files replaced by files with
 an older modification time

---
 src/modules/mod_auth.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index 0ad0052..ba853bf 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -49,6 +49,10 @@ struct AuthFile {
 
 	AuthFileData *data;
 	li_tstamp last_stat;
+	/* file the data was loaded from */
+	ino_t ino;
+	off_t size;
+	time_t mtime;
 
 	gint ttl;
 	li_tstamp next_check; /* unused */
@@ -142,7 +146,11 @@ static AuthFileData* auth_file_get_data(liWorker *wrk, AuthFile *f) {
 		struct stat st;
 		f->next_check = now + f->ttl;
 
-		if (-1 != stat(f->path->str, &st) && st.st_mtime >= f->last_stat - 1) {
+		if (-1 != stat(f->path->str, &st)
+		    && (st.st_mtime >= f->last_stat - 1 || st.st_mtime != f->mtime || st.st_size != f->size || st.st_ino != f->ino)) {
+			f->mtime = st.st_mtime;
+			f->size = st.st_size;
+			f->ino = st.st_ino;
 			g_mutex_unlock(f->lock);
 
 			/* update without lock held */
@@ -179,12 +187,19 @@ static void auth_file_free(AuthFile* f) {
 
 static AuthFile* auth_file_new(liWorker *wrk, const GString *path, gboolean has_realm, gint ttl) {
 	AuthFile* f = g_slice_new0(AuthFile);
+	struct stat st;
 	f->path = g_string_new_len(GSTR_LEN(path));
 	f->has_realm = has_realm;
 	f->ttl = ttl;
 	f->next_check = li_cur_ts(wrk) + ttl;
 	f->lock = g_mutex_new();
 
+	if (-1 != stat(f->path->str, &st)) {
+		f->mtime = st.st_mtime;
+		f->size = st.st_size;
+		f->ino = st.st_ino;
+	}
+
 	if (NULL == (f->data = auth_file_load(wrk->srv, f))) {
 		auth_file_free(f);
 		return NULL;
-- 
2.43.0


From a06f944e3e484b49611e0526968b0c28be76880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:24 +0000
Subject: [PATCH 033/139] fix: deflate: only use codings the Accept-Encoding
 header really accepts

---
 src/modules/mod_deflate.c | 44 ++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 8279bfb..924f955 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -506,17 +506,40 @@ static gboolean cached_handle_etag(liVRequest *vr, gboolean debug, liHttpHeader
 	return FALSE;
 }
 
-static guint header_to_encoding_mask(const gchar *s) {
-	guint encoding_mask = 0, i;
+/* parses a list of encodings with optional parameters; entries with "q=0" are not acceptable */
+static void header_to_encoding_mask(const gchar *s, guint *encoding_mask) {
+	while ('\0' != *(s += strspn(s, ", \t"))) {
+		const gchar *name = s;
+		size_t name_len = strcspn(s, ",; \t");
+		gboolean acceptable = TRUE;
+		guint i;
+
+		s += name_len;
+		for (;;) {
+			const gchar *param = s + strspn(s, " \t");
+			size_t param_len;
+
+			if (';' != *param) break;
+			param++;
+			param += strspn(param, " \t");
+			param_len = strcspn(param, ",; \t");
+			s = param + param_len;
+
+			if (0 == g_ascii_strncasecmp(param, CONST_STR_LEN("q=0")) && param_len == 2 + strspn(param + 2, "0.")) {
+				acceptable = FALSE;
+			}
+		}
 
-	for (i = 1; encoding_names[i]; i++) {
-		const gchar *p = strstr(s, encoding_names[i]);
-		if (NULL != p && (p == s || p[-1] == ' ' || p[-1] == ',')) {
-			encoding_mask |= 1 << i;
+		for (i = 1; encoding_names[i]; i++) {
+			if (name_len == strlen(encoding_names[i]) && 0 == g_ascii_strncasecmp(name, encoding_names[i], name_len)) {
+				if (acceptable) {
+					*encoding_mask |= 1 << i;
+				} else {
+					*encoding_mask &= ~(1 << i);
+				}
+			}
 		}
 	}
-
-	return encoding_mask;
 }
 
 static liHandlerResult deflate_handle(liVRequest *vr, gpointer param, gpointer *context) {
@@ -567,7 +590,7 @@ static liHandlerResult deflate_handle(liVRequest *vr, gpointer param, gpointer *
 	hh_encoding_entry = li_http_header_find_first(vr->request.headers, CONST_STR_LEN("accept-encoding"));
 	while (hh_encoding_entry) {
 		hh_encoding = (liHttpHeader*) hh_encoding_entry->data;
-		encoding_mask |= header_to_encoding_mask(LI_HEADER_VALUE(hh_encoding));
+		header_to_encoding_mask(LI_HEADER_VALUE(hh_encoding), &encoding_mask);
 		hh_encoding_entry = li_http_header_find_next(hh_encoding_entry, CONST_STR_LEN("accept-encoding"));
 	}
 
@@ -716,7 +739,8 @@ static liAction* deflate_create(liServer *srv, liWorker *wrk, liPlugin* p, liVal
 				goto option_failed;
 			}
 			have_encodings_parameter = TRUE;
-			conf->allowed_encodings = header_to_encoding_mask(entryValue->data.string->str);
+			conf->allowed_encodings = 0;
+			header_to_encoding_mask(entryValue->data.string->str, &conf->allowed_encodings);
 		} else if (g_string_equal(entryKeyStr, &don_blocksize)) {
 			if (LI_VALUE_NUMBER != li_value_type(entryValue) || entryValue->data.number <= 0) {
 				ERROR(srv, "deflate option '%s' expects positive integer as parameter", entryKeyStr->str);
-- 
2.43.0


From 723901c5e1be0d1309999df82ed6fa6f6cee07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:24 +0000
Subject: [PATCH 034/139] fix: deflate: gzip failed with an output-buffer
 smaller than the gzip header

---
 src/modules/mod_deflate.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 924f955..2f5191f 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -178,20 +178,11 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	if (ctx->is_gzip && !ctx->gzip_header) {
 		ctx->gzip_header = TRUE;
 
-		/* as the buffer is unused it really should be big enough */
-		if (z->avail_out < sizeof(gzip_header)) {
-			f->out->is_closed = TRUE;
-			VR_ERROR(vr, "deflate error: %s", z->msg);
-			return LI_HANDLER_ERROR;
-		}
-
-		/* copy gzip header into output buffer */
-		memcpy(z->next_out, gzip_header, sizeof(gzip_header));
+		/* the output buffer might be smaller than the header */
+		li_chunkqueue_append_mem(f->out, gzip_header, sizeof(gzip_header));
 
 		/* initialize crc32 */
 		ctx->crc = crc32(0L, Z_NULL, 0);
-		z->next_out += sizeof(gzip_header);
-		z->avail_out -= sizeof(gzip_header);
 	}
 
 	while (l < max_compress) {
-- 
2.43.0


From 63d9724a574716422a5a23814953bfc851dc9bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:42 +0000
Subject: [PATCH 035/139] fix: limit.req crashed on the first request (mutex
 was never created)

---
 src/modules/mod_limit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 76eaef9..7cb9732 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -73,6 +73,7 @@ static mod_limit_context* mod_limit_context_new(mod_limit_context_type type, gin
 	case ML_TYPE_REQ:
 		ctx->pool.req.num = 0;
 		ctx->pool.req.ts = 0;
+		ctx->mutex = g_mutex_new();
 		break;
 	case ML_TYPE_REQ_IP:
 		ctx->pool.req_ip = li_radixtree_new();
-- 
2.43.0


From 3c554c265129c925684bd3ac17f9db735c402de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:42 +0000
Subject: [PATCH 036/139] fix: limit.con allowed one request more than the
 limit

---
 src/modules/mod_limit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 7cb9732..522293e 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -236,13 +236,13 @@ static liHandlerResult mod_limit_action_handle(liVRequest *vr, gpointer param, g
 #ifdef GLIB_VERSION_2_30
 		/* since 2.30 g_atomic_int_add does the same as g_atomic_int_exchange_and_add,
 		 * before it didn't return the old value. this fixes the deprecation warning. */
-		if (g_atomic_int_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
 		}
 #else
-		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
-- 
2.43.0


From eea3d29bb522ea1ca552efebf40fd854f03ef720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:54 +0000
Subject: [PATCH 037/139] fix: dirlist: hide-header and hide-readme had no
 effect

---
 src/modules/mod_dirlist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 2a99e6b..8adf036 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -421,9 +421,9 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 				if (dd->hide_directories) continue;
 				g_array_append_val(directories, i);
 			} else {
-				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path, "HEADER.txt")) {
+				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path->str, "HEADER.txt")) {
 					if (dd->hide_header) continue;
-				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path, "README.txt")) {
+				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path->str, "README.txt")) {
 					if (dd->hide_readme) continue;
 				}
 				g_array_append_val(files, i);
-- 
2.43.0


From 84afec6064bc52f5bd3d64dd0bb05a2b2612738e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:54 +0000
Subject: [PATCH 038/139] fix: dirlist: include-header and include-readme had
 no effect

---
 src/modules/mod_dirlist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 8adf036..206ad65 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -444,7 +444,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 		li_g_string_append_len(listing, CONST_STR_LEN(html_header_end));
 
-		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
+		if (dd->include_header) try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
 		g_string_append_printf(listing, html_table_start, vr->request.uri.path->str);
 
@@ -526,7 +526,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		li_g_string_append_len(listing, CONST_STR_LEN(html_table_end));
 
-		try_append_file(vr, &listing, "README.txt", dd->encode_readme);
+		if (dd->include_readme) try_append_file(vr, &listing, "README.txt", dd->encode_readme);
 
 		if (dd->include_sort) {
 			li_g_string_append_len(listing, CONST_STR_LEN(javascript_sort));
-- 
2.43.0


From 37ff3c2522cc60efd9746857dce28608359dadb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:54 +0000
Subject: [PATCH 039/139] fix: dirlist: request path wasn't html encoded in the
 listing

---
 src/modules/mod_dirlist.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 206ad65..522c153 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -431,7 +431,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 
 		listing = g_string_sized_new(4*1024-1);
-		g_string_append_printf(listing, html_header_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_header_start, encoded->str);
 
 		if (dd->css) {
 			/* custom css */
@@ -446,7 +447,8 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		if (dd->include_header) try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
-		g_string_append_printf(listing, html_table_start, vr->request.uri.path->str);
+		li_string_encode(vr->request.uri.path->str, encoded, LI_ENCODING_HTML);
+		g_string_append_printf(listing, html_table_start, encoded->str);
 
 		if (0 != strcmp("/", vr->request.uri.path->str)) {
 			g_string_append_printf(listing, html_table_row, '0', "../",
-- 
2.43.0


From e965bf115d925fa7a1c589cc1eb34a00fc655c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:54 +0000
Subject: [PATCH 040/139] fix: directory listings crashed with the stat cache
 disabled

---
 src/main/stat_cache.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/main/stat_cache.c b/src/main/stat_cache.c
index 4089804..36dc79f 100644
--- a/src/main/stat_cache.c
+++ b/src/main/stat_cache.c
@@ -228,6 +228,26 @@ liHandlerResult li_stat_cache_get_dirlist(liVRequest *vr, GString *path, liStatC
 	guint i;
 
 	sc = vr->wrk->stat_cache;
+	if (NULL == sc) {
+		/* stat cache is disabled: use an entry just for this vrequest */
+		for (i = 0; i < vr->stat_cache_entries->len; i++) {
+			sce = g_ptr_array_index(vr->stat_cache_entries, i);
+			if (STAT_CACHE_ENTRY_DIR != sce->type || !g_string_equal(sce->data.path, path)) continue;
+			if (g_atomic_int_get(&sce->state) == STAT_CACHE_ENTRY_WAITING) return LI_HANDLER_WAIT_FOR_EVENT;
+			*result = sce;
+			return LI_HANDLER_GO_ON;
+		}
+
+		sce = stat_cache_entry_new(NULL, path);
+		sce->type = STAT_CACHE_ENTRY_DIR;
+		sce->cached = FALSE;
+		li_stat_cache_entry_acquire(vr, sce); /* assign sce to vr */
+
+		/* uses initial reference of sce */
+		li_tasklet_push(vr->wrk->tasklets, stat_cache_run, stat_cache_finished, sce);
+		return LI_HANDLER_WAIT_FOR_EVENT;
+	}
+
 	sce = g_hash_table_lookup(sc->dirlists, path);
 
 	if (sce) {
-- 
2.43.0


From 175fffe584f3fba0ce482b306f80ec39015d4584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:49 +0000
Subject: [PATCH 041/139] fix: close the socket when connecting to a backend
 timed out

---
 src/main/backends.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 04fbe29..46eeaa9 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -295,8 +295,9 @@ static void backend_pool_worker_connect_timeout(liWaitQueue *wq, gpointer data)
 
 	while (NULL != (elem = li_waitqueue_pop(wq))) {
 		liBackendConnection_p *con = LI_CONTAINER_OF(elem, liBackendConnection_p, timeout_elem);
+		int fd = li_event_io_fd(&con->public.watcher);
 		li_event_clear(&con->public.watcher);
-		close(li_event_io_fd(&con->public.watcher));
+		close(fd);
 		g_slice_free(liBackendConnection_p, con);
 
 		ERROR(srv, "Couldn't connect to '%s': timeout",
-- 
2.43.0


From ae2bc1ce56819f240875e0fd3198de7705b65085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:49 +0000
Subject: [PATCH 042/139] fix: action stack might get reallocated in the
 balancer fallback

---
 src/main/actions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/actions.c b/src/main/actions.c
index cb326ab..0843cfb 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -313,7 +313,9 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 			
 			ase->finished = FALSE;
 			a = ase->act;
+			ase_ndx = as->stack->len - 1; /* the stack might get modified - reread "ase" after that */
 			res = a->data.balancer.fallback(vr, ase->backlog_provided, a->data.balancer.param, &ase->data.context, as->backend_error);
+			ase = &g_array_index(as->stack, action_stack_element, ase_ndx);
 			switch (res) {
 			case LI_HANDLER_GO_ON:
 				ase->finished = TRUE;
-- 
2.43.0


From 4a5e6c7c2026570099765d2fe845593e75d30418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:46 +0000
Subject: [PATCH 043/139] fix: nested balancers must report being down to the
 outer balancer

If an outer balancer provides the backlog the inner balancer reported the
failure but queued the request in its own backlog nevertheless; the request
had to wait even if the outer balancer had another backend alive.
---
 src/modules/mod_balance.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_balance.c b/src/modules/mod_balance.c
index fef48d3..bdfb96b 100644
--- a/src/modules/mod_balance.c
+++ b/src/modules/mod_balance.c
@@ -329,6 +329,10 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 		} else {
 			li_vrequest_backend_overloaded(vr);
 		}
+
+		g_mutex_unlock(b->lock);
+
+		return LI_HANDLER_GO_ON;
 	}
 
 	/* don't backlog scheduled requests */
@@ -406,7 +410,8 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 			_balancer_backlog_update_watcher(vr->wrk, b);
 		}
 
-		if (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit) {
+		/* don't use own backlog if someone else before us does provide it */
+		if (!backlog_provided && (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit)) {
 			_balancer_context_backlog_push(b, context, vr);
 
 			g_mutex_unlock(b->lock);
-- 
2.43.0


From c5013954800e290e14c90b80b016a982c97c0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:25 +0000
Subject: [PATCH 044/139] fix: 'and' binds stronger than 'or' in config
 conditions

As documented; "a or b and c" was parsed as "(a or b) and c".
---
 src/main/config_parser.rl | 41 ++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index a0a6bc1..98aceb8 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1740,30 +1740,35 @@ static gboolean p_condition_expr(liConditionTree **tree, liConfigToken preOp, li
 	liConfigToken op = TK_ERROR;
 
 	for (;;) {
-		gboolean negated = FALSE;
-		NEXT(token);
-		if (TK_NOT == token) {
-			negated = TRUE;
+		if (result == NULL) {
+			gboolean negated = FALSE;
 			NEXT(token);
-		}
+			if (TK_NOT == token) {
+				negated = TRUE;
+				NEXT(token);
+			}
 
-		if (TK_PARA_OPEN == token) {
-			if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
-			NEXT(token);
-			if (TK_PARA_CLOSE != token) {
-				parse_error(ctx, error, "expected ')'");
-				goto error;
+			if (TK_PARA_OPEN == token) {
+				if (!p_condition_expr(&leave, TK_ERROR, ctx, error)) goto error;
+				NEXT(token);
+				if (TK_PARA_CLOSE != token) {
+					parse_error(ctx, error, "expected ')'");
+					goto error;
+				}
+			} else {
+				REMEMBER(token);
+				if (!p_condition_value(&leave, ctx, error)) goto error;
 			}
-		} else {
-			REMEMBER(token);
-			if (!p_condition_value(&leave, ctx, error)) goto error;
-		}
-		if (negated) leave->negated = !leave->negated;
+			if (negated) leave->negated = !leave->negated;
 
-		if (result == NULL) {
 			result = leave;
 		} else {
-			liConditionTree *tmp = g_slice_new0(liConditionTree);
+			liConditionTree *tmp;
+
+			/* right operand includes all operators binding stronger than op */
+			if (!p_condition_expr(&leave, op, ctx, error)) goto error;
+
+			tmp = g_slice_new0(liConditionTree);
 			tmp->negated = FALSE;
 			tmp->op = op;
 			tmp->left = result;
-- 
2.43.0


From 417aac77ce4c2ce441179eced3d8ffe07aae5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:25 +0000
Subject: [PATCH 045/139] fix: regex conditions which didn't match dropped the
 captures of the outer condition

---
 src/main/actions.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/actions.c b/src/main/actions.c
index 0843cfb..a20af66 100644
--- a/src/main/actions.c
+++ b/src/main/actions.c
@@ -177,10 +177,9 @@ static void action_stack_element_release(liServer *srv, liVRequest *vr, action_s
 		}
 		break;
 	case LI_ACTION_TCONDITION:
-		if (a->data.condition.cond->rvalue.type == LI_COND_VALUE_REGEXP) {
-			/* pop regex stack */
+		if (ase->data.pos > 0) {
+			/* condition pushed onto regex stack: pop it */
 			GArray *rs = vr->action_stack.regex_stack;
-			/* cheap check to prevent segfault if condition errored without pushing onto stack; whole stack gets cleaned anyways */
 			if (rs->len) {
 				liActionRegexStackElement *arse = &g_array_index(rs, liActionRegexStackElement, rs->len - 1);
 				if (arse->string)
@@ -385,7 +384,12 @@ liHandlerResult li_action_execute(liVRequest *vr) {
 			break;
 		case LI_ACTION_TCONDITION:
 			condres = FALSE;
-			res = li_condition_check(vr, a->data.condition.cond, &condres);
+			{
+				guint rs_len = as->regex_stack->len;
+				res = li_condition_check(vr, a->data.condition.cond, &condres);
+				/* only conditions with a matching regex push (and need to pop) their match */
+				ase->data.pos = as->regex_stack->len - rs_len;
+			}
 			switch (res) {
 			case LI_HANDLER_GO_ON:
 				ase->finished = TRUE;
-- 
2.43.0


From f0455fbc7900f41553f1a969e1a0e8be7dcbf1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:25 +0000
Subject: [PATCH 046/139] fix: ipv6 addresses without '::' were left
 uninitialised by the parser

---
 src/common/ip_parsers.rl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/common/ip_parsers.rl b/src/common/ip_parsers.rl
index aef15e6..1f4e546 100644
--- a/src/common/ip_parsers.rl
+++ b/src/common/ip_parsers.rl
@@ -134,10 +134,13 @@ gboolean li_parse_ipv6(const char *str, guint8 *ip, guint *network, guint16 *por
 	%% write exec noend;
 
 	if (!res || cs < ipv6_parser_first_final) return FALSE;
-	if (!compressed) return (prec == 8);
-	if (prec + postc > 7) return FALSE;
-	for ( ; prec < 8-postc; prec++) predata[prec] = 0;
-	for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
+	if (!compressed) {
+		if (prec != 8) return FALSE;
+	} else {
+		if (prec + postc > 7) return FALSE;
+		for ( ; prec < 8-postc; prec++) predata[prec] = 0;
+		for (postc = 0 ; prec < 8; prec++, postc++ ) predata[prec] = postdata[postc];
+	}
 	memcpy(ip, predata, 16);
 
 	return TRUE;
-- 
2.43.0


From 9627924467706065fa5ad1aad384906a835e3137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:51 +0000
Subject: [PATCH 047/139] fix: shutdown requests during start-up left the
 server hanging

---
 src/main/server.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/main/server.c b/src/main/server.c
index c3e91eb..a7133d1 100644
--- a/src/main/server.c
+++ b/src/main/server.c
@@ -677,6 +677,7 @@ static liServerState li_server_next_state(liServer *srv) {
 static void li_server_start_transition(liServer *srv, liServerState state) {
 	guint i;
 	liServerStateWait sw_dummy;
+	liServerState prev_wait_for = srv->state_wait_for;
 
 	DEBUG(srv, "Try reaching state: %s (dest: %s)", li_server_state_string(state), li_server_state_string(srv->dest_state));
 
@@ -712,6 +713,15 @@ static void li_server_start_transition(liServer *srv, liServerState state) {
 		/* wait for closed connections and plugins */
 		break;
 	case LI_SERVER_STOPPING:
+		if (srv->state == LI_SERVER_LOADING) {
+			/* worker threads are not running yet, but have to handle the stop events */
+			li_server_worker_run(srv);
+		} else if (prev_wait_for == LI_SERVER_WARMUP) {
+			/* warmup was aborted, but it already started listening */
+			li_server_stop_listen(srv);
+			li_plugins_stop_listen(srv);
+		}
+
 		/* stop all workers */
 		for (i = 0; i < srv->worker_count; i++) {
 			liWorker *wrk;
-- 
2.43.0


From 8007638b30166a3e6d02a33c221e9954fd481125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:03 +0000
Subject: [PATCH 048/139] fix: removing keys longer than 32 bits from a radix
 tree (ipv6 limits)

---
 src/common/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/radix.c b/src/common/radix.c
index c86b718..e4dc5b3 100644
--- a/src/common/radix.c
+++ b/src/common/radix.c
@@ -211,7 +211,7 @@ static gpointer radixtree_remove(liRadixNode **nodeptr, rdxBase *input, guint32
 
 	if (mask & 0x1) {
 		/* next "layer" */
-		input++;
+		current = *++input;
 		bits -= RDXBITS;
 		nextnode = (current & RDX_BIT(0)) ? &node->right : &node->left;
 	} else {
-- 
2.43.0


From 8e1956279613412cfdd069b1b923838db7c1130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:39 +0000
Subject: [PATCH 049/139] fix: accesslog escaped bytes above 0x7f as garbage

---
 src/modules/mod_accesslog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 8b34e33..2b65a00 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -124,9 +124,9 @@ static void al_append_escaped(GString *log, GString *str) {
 			} else {
 				/* non printable char => \xHH */
 				gchar hh[5] = {'\\','x',0,0,0};
-				gchar h = str->str[i] / 16;
+				guchar h = ((guchar) str->str[i]) / 16;
 				hh[2] = (h > 9) ? (h - 10 + 'A') : (h + '0');
-				h = str->str[i] % 16;
+				h = ((guchar) str->str[i]) % 16;
 				hh[3] = (h > 9) ? (h - 10 + 'A') : (h + '0');
 				li_g_string_append_len(log, &hh[0], 4);
 			}
-- 
2.43.0


From 42e2f9a2f33daa5c8cb2e887edc393ad3319583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:39 +0000
Subject: [PATCH 050/139] fix: accesslog wrote decoded paths, user and host
 names unescaped

---
 src/modules/mod_accesslog.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 2b65a00..1ac4fc0 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -251,7 +251,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				break;
 			case AL_FORMAT_FILENAME:
 				if (phys->path->len)
-					li_g_string_append_len(str, GSTR_LEN(phys->path));
+					al_append_escaped(str, phys->path);
 				else
 					g_string_append_c(str, '-');
 				break;
@@ -309,22 +309,22 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 			case AL_FORMAT_AUTHED_USER:
 				tmp_gstr2 = li_environment_get(&vr->env, CONST_STR_LEN("REMOTE_USER"));
 				if (tmp_gstr2)
-					li_g_string_append_len(str, GSTR_LEN(tmp_gstr2));
+					al_append_escaped(str, tmp_gstr2);
 				else
 					g_string_append_c(str, '-');
 				break;
 			case AL_FORMAT_PATH:
-				li_g_string_append_len(str, GSTR_LEN(req->uri.path));
+				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
 				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
 					li_g_string_append_len(str, GSTR_LEN(CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string));
 				else
-					li_g_string_append_len(str, GSTR_LEN(req->uri.host));
+					al_append_escaped(str, req->uri.host);
 				break;
 			case AL_FORMAT_HOSTNAME:
 				if (req->uri.host->len)
-					li_g_string_append_len(str, GSTR_LEN(req->uri.host));
+					al_append_escaped(str, req->uri.host);
 				else
 					g_string_append_c(str, '-');
 				break;
-- 
2.43.0


From 815fd7d79a23a2ff619b5c97d7c853ab35b58324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:39 +0000
Subject: [PATCH 051/139] fix: accesslog %v has to fall back to the request
 hostname if server.name is not set

---
 src/modules/mod_accesslog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 1ac4fc0..2def66d 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -317,7 +317,7 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				al_append_escaped(str, req->uri.path);
 				break;
 			case AL_FORMAT_SERVER_NAME:
-				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string)
+				if (CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string && CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string->len)
 					li_g_string_append_len(str, GSTR_LEN(CORE_OPTIONPTR(LI_CORE_OPTION_SERVER_NAME).string));
 				else
 					al_append_escaped(str, req->uri.host);
-- 
2.43.0


From 32c3b6bf434ea07c5de62a4d9d7cce0446813193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:58 +0000
Subject: [PATCH 052/139] fix: requests refused while reading their header were
 not logged or counted

---
 src/main/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 35df956..0f521e7 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -278,8 +278,10 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 				li_counter_format(vr->request.uri.raw->len, COUNTER_BYTES, vr->wrk->tmp_str)->str
 			);
 
+			con->wrk->stats.requests++;
 			con->info.keep_alive = FALSE;
 			vr->response.http_status = 414; /* Request-URI Too Large */
+			vr->state = LI_VRS_WRITE_CONTENT; /* request gets answered, plugins need to see the close event */
 			con->state = LI_CON_STATE_WRITE;
 			li_connection_update_io_wait(con);
 			li_stream_again(&con->out);
@@ -303,6 +305,7 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 			/* set status 400 if not already set to e.g. 413 */
 			if (vr->response.http_status == 0)
 				vr->response.http_status = 400;
+			vr->state = LI_VRS_WRITE_CONTENT; /* request gets answered, plugins need to see the close event */
 			con->state = LI_CON_STATE_WRITE;
 			li_connection_update_io_wait(con);
 			li_stream_again(&con->out);
@@ -319,6 +322,7 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 			/* set status 400 if not already set */
 			if (vr->response.http_status == 0)
 				vr->response.http_status = 400;
+			vr->state = LI_VRS_WRITE_CONTENT; /* request gets answered, plugins need to see the close event */
 			con->state = LI_CON_STATE_WRITE;
 			con->info.keep_alive = FALSE;
 			li_connection_update_io_wait(con);
-- 
2.43.0


From 71ede7952e27d79340bf508170fb048b7b5f53ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:02 +0000
Subject: [PATCH 053/139] fix: accesslog %b and %B counted the headers, and
 were swapped

---
 include/lighttpd/virtualrequest.h |  1 +
 src/main/response.c               |  1 +
 src/modules/mod_accesslog.c       | 16 +++++++++++-----
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/lighttpd/virtualrequest.h b/include/lighttpd/virtualrequest.h
index d9e21f4..d05952b 100644
--- a/include/lighttpd/virtualrequest.h
+++ b/include/lighttpd/virtualrequest.h
@@ -56,6 +56,7 @@ struct liConInfo {
 
 	liStream *req;
 	liStream *resp;
+	goffset resp_header_length; /* response headers (and interim responses) at the beginning of resp->out */
 
 	/* bytes in our "raw-io-out-queue" that hasn't be sent yet. (whatever "sent" means - in ssl buffer, kernel, ...) */
 	goffset out_queue_length;
diff --git a/src/main/response.c b/src/main/response.c
index 1106702..e69b6a2 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -154,6 +154,7 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 
 	li_g_string_append_len(head, CONST_STR_LEN("\r\n"));
 	li_chunkqueue_append_string(raw_out, head);
+	vr->coninfo->resp_header_length = raw_out->bytes_in;
 
 	if (NULL != tmp_cq) {
 		li_chunkqueue_steal_all(raw_out, tmp_cq);
diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 2def66d..ee405ec 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -76,8 +76,8 @@ static const al_format al_format_mapping[] = {
 	{ '%', FALSE, AL_FORMAT_PERCENT },
 	{ 'a', FALSE, AL_FORMAT_REMOTE_ADDR },
 	{ 'A', FALSE, AL_FORMAT_LOCAL_ADDR },
-	{ 'b', FALSE, AL_FORMAT_BYTES_RESPONSE },
-	{ 'B', FALSE, AL_FORMAT_BYTES_RESPONSE_CLF },
+	{ 'b', FALSE, AL_FORMAT_BYTES_RESPONSE_CLF },
+	{ 'B', FALSE, AL_FORMAT_BYTES_RESPONSE },
 	{ 'C', FALSE, AL_FORMAT_COOKIE },
 	{ 'D', FALSE, AL_FORMAT_DURATION_MICROSECONDS },
 	{ 'e', TRUE, AL_FORMAT_ENV },
@@ -207,6 +207,12 @@ static GArray *al_parse_format(liServer *srv, const gchar *formatstr) {
 	return arr;
 }
 
+/* bytes of the response sent, without headers */
+static goffset al_response_body_size(liVRequest *vr) {
+	if (NULL == vr->coninfo->resp) return 0;
+	return MAX(0, vr->coninfo->resp->out->bytes_out - vr->coninfo->resp_header_length);
+}
+
 static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 	GString *str = g_string_sized_new(255);
 	liResponse *resp = &vr->response;
@@ -231,11 +237,11 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				li_g_string_append_len(str, GSTR_LEN(vr->coninfo->local_addr_str));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE:
-				li_string_append_int(str, (NULL != vr->coninfo->resp) ? vr->coninfo->resp->out->bytes_out : 0);
+				li_string_append_int(str, al_response_body_size(vr));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE_CLF:
-				if (NULL != vr->coninfo->resp && vr->coninfo->resp->out->bytes_out)
-					li_string_append_int(str, vr->coninfo->resp->out->bytes_out);
+				if (0 != al_response_body_size(vr))
+					li_string_append_int(str, al_response_body_size(vr));
 				else
 					g_string_append_c(str, '-');
 				break;
-- 
2.43.0


From 101773335d7cefbb5097969c6519729265b15948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:05 +0000
Subject: [PATCH 054/139] fix: use after free when sending '100 Continue' to a
 client which is gone

---
 src/main/connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 0f521e7..d2859de 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -342,7 +342,8 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 			li_chunkqueue_append_mem(con->out.out, CONST_STR_LEN("HTTP/1.1 100 Continue\r\n\r\n"));
 			con->expect_100_cont = FALSE;
 
-			li_stream_notify(&con->out);
+			/* might lead to a connection reset, don't handle it in the middle of the request setup */
+			li_stream_notify_later(&con->out);
 		}
 
 		con->state = LI_CON_STATE_HANDLE_MAINVR;
-- 
2.43.0


From 30ab6d2b16f15e56f4e0fbe0bef5bb59b8c590ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:20 +0000
Subject: [PATCH 055/139] fix: gnutls connections closed by the client leaked
 their streams

---
 src/modules/mod_gnutls.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index bb10f53..0cd15b1 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -400,7 +400,6 @@ static void close_cb(liGnuTLSFilter *f, gpointer data) {
 		LI_FORCE_ASSERT(con->con_sock.data == conctx);
 		conctx->con = NULL;
 		con->con_sock.data = NULL;
-		con->con_sock.callbacks = NULL;
 		li_stream_acquire(raw_in);
 		li_stream_reset(raw_out);
 		li_stream_reset(raw_in);
-- 
2.43.0


From 71dd1bf78e6dc3e6a093ab0e31594111ef40af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:23 +0000
Subject: [PATCH 056/139] fix: mod_limit leaked the addresses with a pending
 timeout at exit

---
 src/modules/mod_limit.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 522293e..cf51562 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -424,9 +424,20 @@ static void mod_limit_prepare_worker(liServer *srv, liPlugin *p, liWorker *wrk)
 static void plugin_limit_free(liServer *srv, liPlugin *p) {
 	mod_limit_data *mld = p->data;
 
-	UNUSED(srv); UNUSED(p);
-
 	if (mld) {
+		guint i;
+
+		/* addresses still waiting for their timeout */
+		for (i = 0; i < srv->worker_count; i++) {
+			liWaitQueueElem *wqe;
+
+			while ((wqe = li_waitqueue_pop_force(&mld->timeout_queues[i])) != NULL) {
+				mod_limit_req_ip_data *rid = wqe->data;
+				li_sockaddr_clear(&rid->ip);
+				g_slice_free(mod_limit_req_ip_data, rid);
+			}
+		}
+
 		g_free(mld->timeout_queues);
 		g_slice_free(mod_limit_data, mld);
 	}
-- 
2.43.0


From 44ba6f388ac01edac94d71ab9dd3ea4322c0373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:28 +0000
Subject: [PATCH 057/139] fix: status counters were written out of bounds for
 requests without response and lost updates of other workers

---
 src/modules/mod_status.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modules/mod_status.c b/src/modules/mod_status.c
index a30fddb..c7dc0d8 100644
--- a/src/modules/mod_status.c
+++ b/src/modules/mod_status.c
@@ -315,6 +315,7 @@ static const gchar css_blue[] =
 	"			.totals td { border-top: 1px solid #DDDDDD; }\n"
 	"		</style>\n";
 
+G_LOCK_DEFINE_STATIC(mod_status_response_codes); /* shared by all workers */
 static guint64 mod_status_response_codes[] = {
 	0, /*1xx*/
 	0, /*2xx*/
@@ -724,9 +725,11 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 
 	/* response status codes */
 	li_g_string_append_len(html, CONST_STR_LEN("<div class=\"title\"><strong>HTTP Status codes</strong> (sum)</div>\n"));
+	G_LOCK(mod_status_response_codes);
 	g_string_append_printf(html, html_status_codes, mod_status_response_codes[0], mod_status_response_codes[1],
 		mod_status_response_codes[2], mod_status_response_codes[3], mod_status_response_codes[4]
 	);
+	G_UNLOCK(mod_status_response_codes);
 
 
 	/* list connections */
@@ -857,6 +860,7 @@ static GString *status_info_plain(liVRequest *vr, guint uptime, liStatistics *to
 	li_g_string_append_len(html, CONST_STR_LEN("\nconnection_state_upgraded: "));
 	li_string_append_int(html, connection_count[LI_CON_STATE_UPGRADED]);
 	/* status cpdes */
+	G_LOCK(mod_status_response_codes);
 	li_g_string_append_len(html, CONST_STR_LEN("\n\n# Status Codes (since start)\nstatus_1xx: "));
 	li_string_append_int(html, mod_status_response_codes[0]);
 	li_g_string_append_len(html, CONST_STR_LEN("\nstatus_2xx: "));
@@ -867,6 +871,7 @@ static GString *status_info_plain(liVRequest *vr, guint uptime, liStatistics *to
 	li_string_append_int(html, mod_status_response_codes[3]);
 	li_g_string_append_len(html, CONST_STR_LEN("\nstatus_5xx: "));
 	li_string_append_int(html, mod_status_response_codes[4]);
+	G_UNLOCK(mod_status_response_codes);
 
 	li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Type"), CONST_STR_LEN("text/plain"));
 
@@ -1253,7 +1258,12 @@ static void status_handle_vrclose(liVRequest *vr, liPlugin *p) {
 		return;
 	}
 
+	/* aborted before there was a response */
+	if (0 == http_status) return;
+
+	G_LOCK(mod_status_response_codes);
 	mod_status_response_codes[(http_status / 100)-1]++;
+	G_UNLOCK(mod_status_response_codes);
 }
 
 
-- 
2.43.0


From af0413fc0486216d9e98371e8057def26b52c57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:41 +0000
Subject: [PATCH 058/139] fix: requests waiting for a backend were closed by
 the io timeout

---
 include/lighttpd/connection.h |  1 +
 src/main/connection.c         | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/lighttpd/connection.h b/include/lighttpd/connection.h
index 9c52f03..ef8d74e 100644
--- a/include/lighttpd/connection.h
+++ b/include/lighttpd/connection.h
@@ -60,6 +60,7 @@ struct liConnection {
 
 	liConnectionState state;
 	gboolean response_headers_sent, expect_100_cont, out_has_all_data;
+	gboolean out_blocked; /* response data is waiting for the client to read */
 
 	liStream in, out;
 	liFilterChunkedDecodeState in_chunked_decode_state;
diff --git a/src/main/connection.c b/src/main/connection.c
index d2859de..38389a7 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -31,6 +31,14 @@ void li_connection_simple_tcp(liConnection **pcon, liIOStream *stream, gpointer
 				li_vrequest_update_stats_out(con->mainvr, transfer_out);
 			}
 		}
+
+		{
+			gboolean out_blocked = (NULL != stream->stream_out.out && stream->stream_out.out->length > 0);
+			if (out_blocked != con->out_blocked) {
+				con->out_blocked = out_blocked;
+				li_connection_update_io_wait(con);
+			}
+		}
 	}
 
 	switch (event) {
@@ -376,6 +384,8 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 				in->is_closed = TRUE;
 			}
 		}
+		/* don't wait for the client anymore after the complete request body was received */
+		if (in->is_closed) li_connection_update_io_wait(con);
 		if (newbytes > 0 || in->is_closed) {
 			li_stream_notify(&con->in);
 		}
@@ -494,8 +504,8 @@ void li_connection_update_io_wait(liConnection *con) {
 		want_timeout = TRUE;
 		break;
 	case LI_CON_STATE_HANDLE_MAINVR:
-		/* want timeout while we're still reading request body */
-		want_timeout = stopping || !con->in.out->is_closed;
+		/* want timeout while we're still reading request body or the client has to read parts of the response */
+		want_timeout = stopping || !con->in.out->is_closed || con->out_blocked;
 		break;
 	case LI_CON_STATE_WRITE:
 		want_timeout = TRUE;
@@ -757,6 +767,7 @@ static void li_connection_reset2(liConnection *con) {
 	con->response_headers_sent = FALSE;
 	con->expect_100_cont = FALSE;
 	con->out_has_all_data = FALSE;
+	con->out_blocked = FALSE;
 
 	con_iostream_close(con);
 
-- 
2.43.0


From 7bc61f3f2d37a3e1a11dab3e5d1860a0e39a29b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:41 +0000
Subject: [PATCH 059/139] fix: keepalive.requests was ignored as action and
 allowed one request more

---
 src/main/connection.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 38389a7..13b2e7d 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -251,9 +251,6 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 		li_event_stop(&con->keep_alive_data.watcher);
 
 		con->keep_alive_requests++;
-		/* disable keep alive if limit is reached */
-		if (con->keep_alive_requests == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number)
-			con->info.keep_alive = FALSE;
 
 		/* reopen stream for request body */
 		li_chunkqueue_reset(in);
@@ -443,6 +440,11 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			if (0 == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE).number) {
 				con->info.keep_alive = FALSE;
 			}
+			/* disable keep alive if limit is reached; keep_alive_requests doesn't include the first request */
+			if (0 != CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number
+			    && con->keep_alive_requests + 1 >= CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number) {
+				con->info.keep_alive = FALSE;
+			}
 			/* can't reuse the connection unless the complete request body was received */
 			if (!con->in.out->is_closed) con->info.keep_alive = FALSE;
 			li_response_send_headers(vr, raw_out, out, FALSE);
-- 
2.43.0


From d3058fb0294f0bacc16d4727da77e3159fc5cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:58 +0000
Subject: [PATCH 060/139] fix: log entries of the last loop iteration were lost
 at shutdown

---
 src/main/worker.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main/worker.c b/src/main/worker.c
index e9811cd..bce66aa 100644
--- a/src/main/worker.c
+++ b/src/main/worker.c
@@ -144,10 +144,8 @@ GString *li_worker_current_timestamp(liWorker *wrk, liTimeFunc timefunc, guint f
 	return wts->str;
 }
 
-static void li_worker_prepare_cb(liEventBase *watcher, int events) {
-	liWorker *wrk = LI_CONTAINER_OF(li_event_prepare_from(watcher), liWorker, loop_prepare);
+static void li_worker_flush_log_queue(liWorker *wrk) {
 	liServer *srv = wrk->srv;
-	UNUSED(events);
 
 	/* are there pending log entries? */
 	if (g_queue_get_length(&wrk->logs.log_queue)) {
@@ -161,6 +159,13 @@ static void li_worker_prepare_cb(liEventBase *watcher, int events) {
 	}
 }
 
+static void li_worker_prepare_cb(liEventBase *watcher, int events) {
+	liWorker *wrk = LI_CONTAINER_OF(li_event_prepare_from(watcher), liWorker, loop_prepare);
+	UNUSED(events);
+
+	li_worker_flush_log_queue(wrk);
+}
+
 /* stop worker watcher */
 static void li_worker_stop_cb(liEventBase *watcher, int events) {
 	liWorker *wrk = LI_CONTAINER_OF(li_event_async_from(watcher), liWorker, worker_stop_watcher);
@@ -391,6 +396,9 @@ struct ev_loop* li_worker_free(liWorker *wrk) {
 
 	li_event_clear(&wrk->loop_prepare);
 
+	/* entries logged since the last loop iteration (the log thread is stopped later) */
+	li_worker_flush_log_queue(wrk);
+
 	g_string_free(wrk->tmp_str, TRUE);
 
 	li_stat_cache_free(wrk->stat_cache);
-- 
2.43.0


From 2a9408283cac1db21071e323652e5dba6cfc3c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:58 +0000
Subject: [PATCH 061/139] fix: mod_openssl kept sockets of finished or timed
 out connections open forever

---
 src/modules/mod_openssl.c | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index 3ab79f2..4c669dc 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -84,6 +84,19 @@ static void mod_openssl_context_acquire(openssl_context *ctx) {
 
 
 
+/* connection is gone, only the ssl close alert might be left to send; don't wait (forever) for the client */
+static void tcp_linger(liIOStream *stream) {
+	int fd;
+
+	/* get called again when throttling allows writing */
+	if (stream->throttled_out) return;
+
+	stream->out_closed = stream->in_closed = TRUE;
+	stream->can_read = stream->can_write = FALSE;
+	fd = li_iostream_reset(stream);
+	li_worker_add_closing_socket(li_worker_from_iostream(stream), fd);
+}
+
 static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 	openssl_connection_ctx *conctx = stream->data;
 	LI_FORCE_ASSERT(NULL == conctx->sock_stream || conctx->sock_stream == stream);
@@ -110,6 +123,9 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 		stream->data = NULL;
 		g_slice_free(openssl_connection_ctx, conctx);
 		return;
+	case LI_IOSTREAM_WRITE:
+		if (NULL == conctx->sock_stream) tcp_linger(stream);
+		break;
 	default:
 		break;
 	}
@@ -151,6 +167,12 @@ static void close_cb(liOpenSSLFilter *f, gpointer data) {
 	if (NULL != conctx->sock_stream) {
 		liIOStream *stream = conctx->sock_stream;
 		conctx->sock_stream = NULL;
+		if (stream->can_write || stream->throttled_out) {
+			/* try sending the close alert */
+			li_stream_again_later(&stream->stream_out);
+		} else {
+			tcp_linger(stream);
+		}
 		li_iostream_release(stream);
 	}
 }
@@ -162,14 +184,17 @@ static const liOpenSSLFilterCallbacks filter_callbacks = {
 
 static void openssl_tcp_finished(liConnection *con, gboolean aborted) {
 	openssl_connection_ctx *conctx = con->con_sock.data;
-	UNUSED(aborted);
 
 	con->info.is_ssl = FALSE;
 	con->con_sock.callbacks = NULL;
 
 	if (NULL != conctx) {
+		liIOStream *stream = conctx->sock_stream;
 		LI_FORCE_ASSERT(con == conctx->con);
+		li_iostream_acquire(stream);
 		close_cb(conctx->ssl_filter, conctx);
+		if (aborted) li_stream_simple_socket_close(stream, TRUE);
+		li_iostream_release(stream);
 	}
 
 	{
-- 
2.43.0


From bd661ef17c8a6cad348bef79f66cddeb090b03b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:58 +0000
Subject: [PATCH 062/139] fix: stopping the angel during a restart left the new
 instance running

---
 include/lighttpd/angel_server.h |  1 +
 src/angel/angel_plugin_core.c   |  6 +++---
 src/angel/angel_server.c        | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/lighttpd/angel_server.h b/include/lighttpd/angel_server.h
index cf2f9ad..9cae348 100644
--- a/include/lighttpd/angel_server.h
+++ b/include/lighttpd/angel_server.h
@@ -74,6 +74,7 @@ LI_API void li_server_stop(liServer *srv);
 LI_API liInstance* li_server_new_instance(liServer *srv, liInstanceConf *ic);
 LI_API gboolean li_instance_replace(liInstance *oldi, liInstance *newi);
 LI_API void li_instance_set_state(liInstance *i, liInstanceState s);
+LI_API void li_instance_stop(liInstance *i); /* stops instance and the one replacing it (if any) */
 LI_API void li_instance_state_reached(liInstance *i, liInstanceState s);
 
 LI_API liInstanceConf* li_instance_conf_new(gchar **cmd, gchar **env, GString *username, uid_t uid, gid_t gid, gint64 rlim_core, gint64 rlim_nofile);
diff --git a/src/angel/angel_plugin_core.c b/src/angel/angel_plugin_core.c
index 5ca7254..ad53c2d 100644
--- a/src/angel/angel_plugin_core.c
+++ b/src/angel/angel_plugin_core.c
@@ -948,7 +948,7 @@ static void core_free(liServer *srv, liPlugin *p) {
 	}
 
 	if (config->inst) {
-		li_instance_set_state(config->inst, LI_INSTANCE_FINISHED);
+		li_instance_stop(config->inst);
 		li_instance_release(config->inst);
 		config->inst = NULL;
 	}
@@ -968,7 +968,7 @@ static void core_stop(liServer *srv, liPlugin *p) {
 	UNUSED(srv);
 
 	if (config->inst) {
-		li_instance_set_state(config->inst, LI_INSTANCE_FINISHED);
+		li_instance_stop(config->inst);
 		li_instance_release(config->inst);
 		config->inst = NULL;
 	}
@@ -985,7 +985,7 @@ static void core_activate(liServer *srv, liPlugin *p) {
 	}
 
 	if (NULL != config->inst) {
-		li_instance_set_state(config->inst, LI_INSTANCE_FINISHED);
+		li_instance_stop(config->inst);
 		li_instance_release(config->inst);
 		config->inst = NULL;
 	}
diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index cd903cd..9d526ce 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -281,6 +281,20 @@ void li_instance_set_state(liInstance *i, liInstanceState s) {
 	}
 }
 
+void li_instance_stop(liInstance *i) {
+	liInstance *newi = i->replace_by;
+
+	if (NULL != newi) {
+		/* restart in progress: don't let the new instance take over */
+		li_instance_acquire(newi);
+		li_instance_unset_replace(i, newi);
+		li_instance_set_state(newi, LI_INSTANCE_FINISHED);
+		li_instance_release(newi);
+	}
+
+	li_instance_set_state(i, LI_INSTANCE_FINISHED);
+}
+
 void li_instance_state_reached(liInstance *i, liInstanceState s) {
 	GError *error = NULL;
 
-- 
2.43.0


From bea1f8946ece2f7f04beaa3ff45c43ae8d438596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:15 +0000
Subject: [PATCH 063/139] fix: each request on a keep-alive connection refilled
 the io.throttle burst

---
 src/main/throttle.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index e5147a9..d2c4848 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -300,11 +300,14 @@ liThrottleState* li_throttle_new(void) {
 }
 
 void li_throttle_set(liWorker *wrk, liThrottleState *state, guint rate, guint burst) {
-	UNUSED(wrk);
+	if (0 == state->single_rate) {
+		state->single_magazine = burst;
+		state->single_last_rearm = msec_timestamp(li_cur_ts(wrk));
+	} else if (state->single_magazine > (gint) burst) {
+		state->single_magazine = burst;
+	} /* otherwise keep the state: another request on the connection doesn't refill the magazine */
 	state->single_rate = rate;
 	state->single_burst = burst;
-	state->single_magazine = burst;
-	state->single_last_rearm = msec_timestamp(li_cur_ts(wrk));
 }
 
 void li_throttle_free(liWorker *wrk, liThrottleState *state) {
-- 
2.43.0


From d07eef0b9269db0bde2b4e6906870aa52253acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:15 +0000
Subject: [PATCH 064/139] fix: io.throttle_ip attached another pool to the
 connection for every request

---
 src/modules/mod_throttle.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/mod_throttle.c b/src/modules/mod_throttle.c
index 9f90a81..670bde7 100644
--- a/src/modules/mod_throttle.c
+++ b/src/modules/mod_throttle.c
@@ -25,6 +25,7 @@ typedef struct {
 
 typedef struct {
 	throttle_ip_pools *pools;
+	liThrottlePool *pool;
 	liSocketAddress remote_addr_copy;
 } vr_ip_pools_entry;
 
@@ -238,6 +239,7 @@ static liHandlerResult core_handle_throttle_ip(liVRequest *vr, gpointer param, g
 					g_ptr_array_index(vr->plugin_ctx, pools->plugin_id) = vr_ip_pools;
 				}
 				ventry.pools = pools;
+				ventry.pool = entry->pool;
 				ventry.remote_addr_copy = li_sockaddr_dup(vr->coninfo->remote_addr);
 				g_array_append_val(vr_ip_pools, ventry);
 			}
@@ -364,6 +366,7 @@ static void throttle_vrclose(liVRequest *vr, liPlugin *p) {
 		g_ptr_array_index(vr->plugin_ctx, p->id) = NULL;
 		for (i = 0, len = vr_ip_pools->len; i < len; ++i) {
 			vr_ip_pools_entry *ventry = &g_array_index(vr_ip_pools, vr_ip_pools_entry, i);
+			li_throttle_remove_pool(vr->wrk, vr_get_throttle_out_state(vr), ventry->pool);
 			free_ip_pool(srv, ventry->pools, &ventry->remote_addr_copy);
 			li_sockaddr_clear(&ventry->remote_addr_copy);
 		}
-- 
2.43.0


From 40128c47223b46ea90671a344ac9f83d338d947f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 065/139] fix: job reference released twice after waiting for a
 fetch entry (SNI certificate lookup)

---
 src/common/fetch.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/fetch.c b/src/common/fetch.c
index 7af224f..8b90ef0 100644
--- a/src/common/fetch.c
+++ b/src/common/fetch.c
@@ -487,14 +487,17 @@ static void wakeup_jobref(gpointer data) {
 
 liFetchEntry* li_fetch_get(liFetchDatabase* db, GString *key, liJobRef *jobref, liFetchWait **wait) {
 	liFetchEntry *entry;
+	gboolean acquired = FALSE;
 
 	if (NULL == *wait) {
 		li_job_ref_acquire(jobref);
+		acquired = TRUE;
 	}
 
 	entry = li_fetch_get2(db, key, wakeup_jobref, jobref, wait);
 
-	if (NULL == *wait) {
+	if (acquired && NULL == *wait) {
+		/* no wakeup registered; otherwise the wakeup releases the reference */
 		li_job_ref_release(jobref);
 	}
 
-- 
2.43.0


From 75b4d67319d601a0d61b2b9984ff26f8a56ed402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 066/139] fix: wrong fetch entry acquired when the entry was
 replaced in the cache

---
 src/common/fetch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/fetch.c b/src/common/fetch.c
index 8b90ef0..b0bf9fe 100644
--- a/src/common/fetch.c
+++ b/src/common/fetch.c
@@ -570,7 +570,7 @@ liFetchEntry* li_fetch_get2(liFetchDatabase* db, GString *key, liFetchWakeupCB w
 			li_fetch_entry_release(&pentry->public);
 			result = g_hash_table_lookup(db->cache, key);
 			if (NULL != result) {
-				li_fetch_entry_acquire(&pentry_new->public);
+				li_fetch_entry_acquire(&result->public);
 				goto out;
 			}
 			goto create_new_entry;
-- 
2.43.0


From 86c77e4394936cc75dda3e5aa7b3f2f2baee06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 067/139] fix: endless loop on a TLS server name extension with
 more than one entry

---
 src/modules/ssl_client_hello_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/ssl_client_hello_parser.h b/src/modules/ssl_client_hello_parser.h
index 910b03d..9706c06 100644
--- a/src/modules/ssl_client_hello_parser.h
+++ b/src/modules/ssl_client_hello_parser.h
@@ -388,6 +388,8 @@ INLINE liSSLClientHelloParserResult _li_ssl_client_hello_parse(liSSLClientHelloP
 								context->sni_hostname_remaining -= take;
 								p += take;
 							}
+							if (0 == context->sni_hostname_remaining) context->sni_state = 2; /* next entry */
+							continue;
 						}
 					} /* while (p < extension_pe) -- sni extension subloop */
 				} /* while (p < client_hello_pe) -- extensions subloop */
-- 
2.43.0


From 3a1e13479d2f6bca02d744d6f2f3fea81997bd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 068/139] fix: mod_openssl closed finished connections before
 the close alert was sent

---
 src/modules/mod_openssl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index 4c669dc..3d0275a 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -99,6 +99,7 @@ static void tcp_linger(liIOStream *stream) {
 
 static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 	openssl_connection_ctx *conctx = stream->data;
+	gboolean finished = (NULL == conctx->sock_stream); /* the close alert was already queued before this event */
 	LI_FORCE_ASSERT(NULL == conctx->sock_stream || conctx->sock_stream == stream);
 
 	if (LI_IOSTREAM_DESTROY == event) {
@@ -124,7 +125,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 		g_slice_free(openssl_connection_ctx, conctx);
 		return;
 	case LI_IOSTREAM_WRITE:
-		if (NULL == conctx->sock_stream) tcp_linger(stream);
+		if (finished) tcp_linger(stream);
 		break;
 	default:
 		break;
-- 
2.43.0


From 9bb6ec0dff14ae898670f4e01b684672c8fcc9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 069/139] fix: mod_gnutls never sent the TLS close alert

---
 src/modules/mod_gnutls.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index 0cd15b1..338a7a6 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -386,6 +386,11 @@ static void close_cb(liGnuTLSFilter *f, gpointer data) {
 	liConnection *con = conctx->con;
 	LI_FORCE_ASSERT(conctx->tls_filter == f);
 
+	if (NULL != con && !con->info.aborted && conctx->sock_stream->can_write && !conctx->sock_stream->throttled_out) {
+		/* send the close alert: disconnecting the tls filter closes the socket */
+		li_stream_simple_socket_io_cb_with_context(conctx->sock_stream, LI_IOSTREAM_WRITE, &conctx->simple_socket_data);
+	}
+
 	conctx->tls_filter = NULL;
 	li_gnutls_filter_free(f);
 	gnutls_deinit(conctx->session);
-- 
2.43.0


From b21d33ac77a415246f1511688d1c5684e6e4cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:21 +0000
Subject: [PATCH 070/139] fix: uploads over TLS stalled after 64 kbyte of data
 received in one event

---
 src/modules/gnutls_filter.c  | 3 +++
 src/modules/openssl_filter.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index ca3445c..8fda163 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -368,6 +368,9 @@ static void do_gnutls_read(liGnuTLSFilter *f) {
 		len += r;
 	} while (len < max_read);
 
+	/* there might be more data waiting which won't trigger another event */
+	li_stream_again_later(&f->plain_source);
+
 out:
 	f_release(f);
 }
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index 24ec12d..f1eb5aa 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -388,6 +388,9 @@ static void do_ssl_read(liOpenSSLFilter *f) {
 		len += r;
 	} while (len < max_read);
 
+	/* there might be more data waiting which won't trigger another event */
+	li_stream_again_later(&f->plain_source);
+
 out:
 	f_release(f);
 }
-- 
2.43.0


From 3f2c1f9aea9da3bcf636d50b950f929f545c8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:04 +0000
Subject: [PATCH 071/139] fix: TLS connections stalled until the io timeout
 when the end of a response came without data

---
 src/modules/gnutls_filter.c  | 2 ++
 src/modules/openssl_filter.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index 8fda163..2246609 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -581,6 +581,8 @@ static void stream_plain_drain_cb(liStream *stream, liStreamEvent event) {
 			stream->out->is_closed = stream->out->is_closed || stream->source->out->is_closed;
 		}
 		do_gnutls_write(f);
+		/* the end of the response might not come with data; the connection is waiting for the io stream to notice */
+		li_stream_notify_later(&f->crypt_source);
 		if (stream->out->is_closed) {
 			li_stream_disconnect(stream);
 			stream->out->is_closed = FALSE;
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index f1eb5aa..fa0ab16 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -594,6 +594,8 @@ static void stream_plain_drain_cb(liStream *stream, liStreamEvent event) {
 			stream->out->is_closed = stream->out->is_closed || stream->source->out->is_closed;
 		}
 		do_ssl_write(f);
+		/* the end of the response might not come with data; the connection is waiting for the io stream to notice */
+		li_stream_notify_later(&f->crypt_source);
 		if (stream->out->is_closed) {
 			li_stream_disconnect(stream);
 		}
-- 
2.43.0


From ea2ea6e62e5d4c5efac2787951b070051144a482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:40 +0000
Subject: [PATCH 072/139] fix: reading from a connection stopped forever after
 the input queue was full

---
 src/main/stream.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/stream.c b/src/main/stream.c
index 0b8d461..f7d3aaa 100644
--- a/src/main/stream.c
+++ b/src/main/stream.c
@@ -476,7 +476,8 @@ static void iostream_io_cb(liEventBase *watcher, int events) {
 		li_stream_acquire(&iostream->stream_out); /* keep out stream alive during li_stream_again(&iostream->stream_in) */
 	}
 
-	if (0 != (events & LI_EV_READ) && !iostream->can_read && iostream->stream_in.refcount > 0) {
+	/* "can_read" might be set already if reading stopped because the limit was locked */
+	if (0 != (events & LI_EV_READ) && iostream->stream_in.refcount > 0) {
 		iostream->can_read = TRUE;
 		li_stream_again_later(&iostream->stream_in);
 	}
-- 
2.43.0


From d2469c36e6ae6b9b79e55db70af2d290ddba9113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:04 +0000
Subject: [PATCH 073/139] fix: TLS connections closed without close alert when
 the response end was handled by the io stream

---
 src/modules/gnutls_filter.c  | 10 ++++++++++
 src/modules/gnutls_filter.h  |  3 +++
 src/modules/mod_gnutls.c     |  7 ++++++-
 src/modules/mod_openssl.c    |  6 ++++++
 src/modules/openssl_filter.c | 10 ++++++++++
 src/modules/openssl_filter.h |  3 +++
 6 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index 2246609..a5f1a75 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -678,6 +678,16 @@ liGnuTLSFilter* li_gnutls_filter_new(
 	return f;
 }
 
+void li_gnutls_filter_shutdown(liGnuTLSFilter *f) {
+	if (!f->initial_handshaked_finished || f->closing) return;
+
+	f_acquire(f);
+	li_stream_acquire(&f->plain_drain);
+	stream_plain_drain_cb(&f->plain_drain, LI_STREAM_NEW_DATA);
+	li_stream_release(&f->plain_drain);
+	f_release(f);
+}
+
 void li_gnutls_filter_free(liGnuTLSFilter *f) {
 	LI_FORCE_ASSERT(NULL != f->callbacks);
 	f->callbacks = NULL;
diff --git a/src/modules/gnutls_filter.h b/src/modules/gnutls_filter.h
index 8d8c8c9..887a4f8 100644
--- a/src/modules/gnutls_filter.h
+++ b/src/modules/gnutls_filter.h
@@ -24,6 +24,9 @@ LI_API liGnuTLSFilter* li_gnutls_filter_new(
 	gnutls_session_t session, liStream *crypt_source, liStream *crypt_drain);
 
 /* doesn't call closed_cb; but you can call this from closed_cb */
+/* the application closed its output (and all of it was passed on): send the close alert now */
+LI_API void li_gnutls_filter_shutdown(liGnuTLSFilter *f);
+
 LI_API void li_gnutls_filter_free(liGnuTLSFilter *f);
 
 #endif
diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index 338a7a6..310723f 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -475,7 +475,12 @@ static const liGnuTLSFilterCallbacks filter_callbacks = {
 
 static void gnutls_tcp_finished(liConnection *con, gboolean aborted) {
 	mod_connection_ctx *conctx = con->con_sock.data;
-	UNUSED(aborted);
+
+	if (!aborted && NULL != conctx && NULL != conctx->tls_filter) {
+		/* send the close alert, the notification might still be waiting in the jobqueue */
+		li_gnutls_filter_shutdown(conctx->tls_filter);
+		conctx = con->con_sock.data; /* might be gone now */
+	}
 
 	con->info.is_ssl = FALSE;
 	con->con_sock.callbacks = NULL;
diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index 3d0275a..af03573 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -186,6 +186,12 @@ static const liOpenSSLFilterCallbacks filter_callbacks = {
 static void openssl_tcp_finished(liConnection *con, gboolean aborted) {
 	openssl_connection_ctx *conctx = con->con_sock.data;
 
+	if (!aborted && NULL != conctx && NULL != conctx->ssl_filter) {
+		/* send the close alert, the notification might still be waiting in the jobqueue */
+		li_openssl_filter_shutdown(conctx->ssl_filter);
+		conctx = con->con_sock.data; /* might be gone now */
+	}
+
 	con->info.is_ssl = FALSE;
 	con->con_sock.callbacks = NULL;
 
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index fa0ab16..9eaf06f 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -698,6 +698,16 @@ liOpenSSLFilter* li_openssl_filter_new(
 	return f;
 }
 
+void li_openssl_filter_shutdown(liOpenSSLFilter *f) {
+	if (!f->initial_handshaked_finished || f->closing) return;
+
+	f_acquire(f);
+	li_stream_acquire(&f->plain_drain);
+	stream_plain_drain_cb(&f->plain_drain, LI_STREAM_NEW_DATA);
+	li_stream_release(&f->plain_drain);
+	f_release(f);
+}
+
 void li_openssl_filter_free(liOpenSSLFilter *f) {
 	LI_FORCE_ASSERT(NULL != f->callbacks);
 	f->callbacks = NULL;
diff --git a/src/modules/openssl_filter.h b/src/modules/openssl_filter.h
index 3878b20..ab38851 100644
--- a/src/modules/openssl_filter.h
+++ b/src/modules/openssl_filter.h
@@ -22,6 +22,9 @@ LI_API liOpenSSLFilter* li_openssl_filter_new(
 	SSL_CTX *ssl_ctx, liStream *crypt_source, liStream *crypt_drain);
 
 /* doesn't call closed_cb; but you can call this from closed_cb */
+/* the application closed its output (and all of it was passed on): send the close alert now */
+LI_API void li_openssl_filter_shutdown(liOpenSSLFilter *f);
+
 LI_API void li_openssl_filter_free(liOpenSSLFilter *f);
 
 LI_API SSL* li_openssl_filter_ssl(liOpenSSLFilter *f);
-- 
2.43.0


From bef6b259dfce7c31476c4989fb7dc98fb7a6a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 074/139] fix: quotes weren't escaped in generated HTML

---
 src/common/encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/encoding.c b/src/common/encoding.c
index 899a483..b9cba5a 100644
--- a/src/common/encoding.c
+++ b/src/common/encoding.c
@@ -33,7 +33,7 @@ static const gchar encode_map_html[] = {
 	*/
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 00 - 0F control chars */
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, /* 10 - 1F */
-	0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 20 - 2F & */
+	0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, /* 20 - 2F " & ' */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, /* 30 - 3F < > */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 40 - 40 */
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, /* 50 - 50 */
-- 
2.43.0


From 50c0e669e67c1dde117aef98f58e068c9b3649ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 075/139] fix: mod_status didn't escape the hosts, paths and
 queries of the listed connections

---
 src/modules/mod_status.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_status.c b/src/modules/mod_status.c
index c7dc0d8..18ea43a 100644
--- a/src/modules/mod_status.c
+++ b/src/modules/mod_status.c
@@ -736,6 +736,7 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 	if (!short_info) {
 		GString *ts_started, *ts_timeout, *bytes_in, *bytes_out, *bytes_in_5s, *bytes_out_5s;
 		GString *req_len, *resp_len;
+		GString *host, *path, *query;
 
 		ts_started = g_string_sized_new(15);
 		ts_timeout = g_string_sized_new(15);
@@ -745,6 +746,9 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 		bytes_out_5s = g_string_sized_new(10);
 		req_len = g_string_sized_new(10);
 		resp_len = g_string_sized_new(10);
+		host = g_string_sized_new(127);
+		path = g_string_sized_new(127);
+		query = g_string_sized_new(127);
 
 		li_g_string_append_len(html, CONST_STR_LEN("<div class=\"title\"><strong>Active connections</strong></div>\n"));
 		li_g_string_append_len(html, CONST_STR_LEN(html_connections_th));
@@ -763,13 +767,17 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 				li_counter_format(cd->request_size, COUNTER_BYTES, req_len);
 				li_counter_format(cd->response_size, COUNTER_BYTES, resp_len);
 
+				li_string_encode(cd->host->str, host, LI_ENCODING_HTML);
+				li_string_encode(cd->path->str, path, LI_ENCODING_HTML);
+				li_string_encode(cd->query->str, query, LI_ENCODING_HTML);
+
 				g_string_append_printf(html, html_connections_row,
 					cd->remote_addr_str->str,
 					li_connection_state_str(cd->state),
-					cd->host->str,
-					cd->path->str,
-					cd->query->len ? "?":"",
-					cd->query->len ? cd->query->str : "",
+					host->str,
+					path->str,
+					query->len ? "?":"",
+					query->len ? query->str : "",
 					cd->ts_started, ts_started->str,
 					cd->ts_timeout, cd->ts_timeout < 0 ? "" : ts_timeout->str,
 					cd->bytes_in, bytes_in->str,
@@ -793,6 +801,9 @@ static GString *status_info_full(liVRequest *vr, liPlugin *p, gboolean short_inf
 		g_string_free(bytes_out_5s, TRUE);
 		g_string_free(req_len, TRUE);
 		g_string_free(resp_len, TRUE);
+		g_string_free(host, TRUE);
+		g_string_free(path, TRUE);
+		g_string_free(query, TRUE);
 	}
 
 	li_g_string_append_len(html, CONST_STR_LEN(
-- 
2.43.0


From 26952b1e648ce63d2bfb2511e69160e4732e940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:57 +0000
Subject: [PATCH 076/139] fix: newlines weren't removed from appended and
 overwritten header values

---
 src/main/http_headers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/http_headers.c b/src/main/http_headers.c
index 9d6b0ae..9fe226d 100644
--- a/src/main/http_headers.c
+++ b/src/main/http_headers.c
@@ -140,6 +140,7 @@ void li_http_header_append(liHttpHeaders *headers, const gchar *key, size_t keyl
 		s = h->data->str + oldlen;
 		memcpy(s, ", ", 2);
 		memcpy(s+2, val, valuelen);
+		_http_header_sanitize(h);
 	}
 }
 
@@ -156,6 +157,7 @@ void li_http_header_overwrite(liHttpHeaders *headers, const gchar *key, size_t k
 		g_string_set_size(h->data, keylen + 2 + valuelen);
 		/* only overwrite value */
 		memcpy(h->data->str + keylen + 2, val, valuelen);
+		_http_header_sanitize(h);
 	}
 }
 
-- 
2.43.0


From 34bc19d88a3af70e38e78d2b0aa01840ab43139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:14 +0000
Subject: [PATCH 077/139] fix: redirects relative to the request didn't encode
 the path

---
 src/modules/mod_redirect.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/modules/mod_redirect.c b/src/modules/mod_redirect.c
index 48fe8db..8559411 100644
--- a/src/modules/mod_redirect.c
+++ b/src/modules/mod_redirect.c
@@ -120,14 +120,13 @@ static gboolean redirect_internal(liVRequest *vr, GString *dest, redirect_rule *
 		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.scheme));
 		li_g_string_append_len(dest, CONST_STR_LEN("://"));
 		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.authority));
-		/* search for last slash /foo/bar */
+		/* cut after last slash /foo/bar */
 		{
-			gchar *c;
-			for (c = (vr->request.uri.path->str + vr->request.uri.path->len); c-- > vr->request.uri.path->str;) {
-				if (*c == '/') break;
-			}
+			gsize start = dest->len, len;
 
-			li_g_string_append_len(dest, vr->request.uri.path->str, c - vr->request.uri.path->str + 1);
+			li_string_encode_append(vr->request.uri.path->str, dest, LI_ENCODING_URI);
+			for (len = dest->len; len > start && '/' != dest->str[len-1]; --len) ;
+			g_string_truncate(dest, len);
 		}
 		break;
 	case REDIRECT_RELATIVE_QUERY:
@@ -135,7 +134,7 @@ static gboolean redirect_internal(liVRequest *vr, GString *dest, redirect_rule *
 		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.scheme));
 		li_g_string_append_len(dest, CONST_STR_LEN("://"));
 		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.authority));
-		li_g_string_append_len(dest, GSTR_LEN(vr->request.uri.path));
+		li_string_encode_append(vr->request.uri.path->str, dest, LI_ENCODING_URI);
 		break;
 	}
 
-- 
2.43.0


From a732822df04bbdc43a9063e11488e2254ffdd92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 078/139] fix: memcached values could be dropped if the reply
 was split up

The data block was considered complete as soon as all bytes of the value
(but not the terminating "\r\n") were received; the connection was then
closed with a protocol error. The same happened for empty values.
---
 src/common/memcached.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 80894cc..4daf2df 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -57,7 +57,7 @@ struct liMemcachedCon {
 
 	/* GET */
 	gsize get_data_size;
-	gboolean get_have_header;
+	gboolean get_have_header, get_have_data;
 };
 
 struct int_request {
@@ -599,6 +599,7 @@ static void handle_read(liMemcachedCon *con) {
 		case REQ_GET:
 			con->get_data_size = 0;
 			con->get_have_header = FALSE;
+			con->get_have_data = FALSE;
 			break;
 		case REQ_SET:
 			break;
@@ -676,9 +677,10 @@ req_get_header_error:
 
 req_get_header_done: ;
 		}
-		if (NULL == con->data || con->data->used < con->get_data_size) {
+		if (!con->get_have_data) {
 			/* wait for data */
 			if (!try_read_data(con, con->get_data_size)) return;
+			con->get_have_data = TRUE;
 		}
 		/* wait for END\r\n */
 		if (!try_read_line(con)) return;
-- 
2.43.0


From 9b682ab0f133ada9a87b763359ee0886b8d3e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:55 +0000
Subject: [PATCH 079/139] fix: memcached.store lost regex captures used in the
 key

The key was built after the response was complete, when the captures of
the enclosing condition weren't available anymore: all pages were stored
under the same key.
---
 src/modules/mod_memcached.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index 969b74e..f0c8b64 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -54,6 +54,7 @@ typedef struct {
 typedef struct {
 	memcached_ctx *ctx;
 	liBuffer *buf;
+	GString *key;
 } memcache_filter;
 
 /* memcache option names */
@@ -431,6 +432,8 @@ static void memcache_store_filter_free(liVRequest *vr, liFilter *f) {
 	mc_ctx_release(NULL, mf->ctx);
 	li_buffer_release(mf->buf);
 	mf->buf = NULL;
+	g_string_free(mf->key, TRUE);
+	mf->key = NULL;
 
 	g_slice_free(memcache_filter, mf);
 }
@@ -505,13 +508,12 @@ static liHandlerResult memcache_store_filter(liVRequest *vr, liFilter *f) {
 		f->out->is_closed = TRUE;
 
 		con = mc_ctx_prepare(ctx, vr->wrk);
-		mc_ctx_build_key(vr->wrk->tmp_str, ctx, vr);
 
 		if (NULL != vr && CORE_OPTION(LI_CORE_OPTION_DEBUG_REQUEST_HANDLING).boolean) {
-			VR_DEBUG(vr, "memcached.store: storing response for key '%s'", vr->wrk->tmp_str->str);
+			VR_DEBUG(vr, "memcached.store: storing response for key '%s'", mf->key->str);
 		}
 
-		req = li_memcached_set(con, vr->wrk->tmp_str, ctx->flags, ctx->ttl, mf->buf, NULL, NULL, &err);
+		req = li_memcached_set(con, mf->key, ctx->flags, ctx->ttl, mf->buf, NULL, NULL, &err);
 		memcache_store_filter_free(vr, f);
 
 		if (NULL == req) {
@@ -552,6 +554,9 @@ static liHandlerResult mc_handle_store(liVRequest *vr, gpointer param, gpointer
 	mf->ctx = ctx;
 	mc_ctx_acquire(ctx);
 	mf->buf = li_buffer_new(ctx->maxsize);
+	/* regex captures are only available while the action is running */
+	mf->key = g_string_sized_new(0);
+	mc_ctx_build_key(mf->key, ctx, vr);
 
 	li_vrequest_add_filter_out(vr, memcache_store_filter, memcache_store_filter_free, NULL, mf);
 
-- 
2.43.0


From 216ad0659e585c4b3f06a277b9c1c184478fc39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 080/139] fix: use after free of unconnected memcached
 connections at shutdown

---
 src/common/memcached.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 4daf2df..06b4cde 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -816,9 +816,10 @@ static void li_memcached_con_free(liMemcachedCon* con) {
 
 	if (-1 != li_event_io_fd(&con->con_watcher)) {
 		close(li_event_io_fd(&con->con_watcher));
-		li_event_clear(&con->con_watcher);
 		con->fd = -1;
 	}
+	/* the watcher is attached to the loop even without a socket */
+	li_event_clear(&con->con_watcher);
 
 	send_queue_reset(&con->out);
 	cancel_all_requests(con);
-- 
2.43.0


From 9f1bc41ee3d272b0368412de3be921fecdb00b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:56 +0000
Subject: [PATCH 081/139] fix: memcached replies for other keys were accepted

With the reply stream out of sync (for example after an unsolicited
reply) the value of another key was delivered.
---
 src/common/memcached.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 06b4cde..8c25c56 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -643,6 +643,12 @@ static void handle_read(liMemcachedCon *con) {
 			if (NULL == next) goto req_get_header_error;
 
 			con->curitem.key = g_string_new_len(pos, next - pos);
+			if (!g_string_equal(con->curitem.key, cur->key)) {
+				g_clear_error(&con->err);
+				g_set_error(&con->err, LI_MEMCACHED_ERROR, LI_MEMCACHED_CONNECTION, "Protocol error: VALUE response for wrong key: '%s'", con->line->addr);
+				close_con(con);
+				return;
+			}
 
 			/* <flags> */
 			pos = next + 1;
-- 
2.43.0


From 099806af56bbb47386062d86ebdc92f2fd3cbd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:16 +0000
Subject: [PATCH 082/139] fix: invalid data sizes in memcached replies crashed
 the server

Negative and very large values of the <bytes> field were used for
allocating the buffer.
---
 src/common/memcached.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 8c25c56..8945435 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -27,6 +27,9 @@ GQuark li_memcached_error_quark(void) {
 
 #define BUFFER_CHUNK_SIZE 4*1024
 
+/* upper limit for item sizes ("-I") in memcached */
+#define MAX_DATA_SIZE (1024*1024*1024)
+
 typedef struct int_request int_request;
 typedef enum {
 	REQ_GET, REQ_SET
@@ -610,6 +613,7 @@ static void handle_read(liMemcachedCon *con) {
 	case REQ_GET:
 		if (!con->get_have_header) {
 			char *pos, *next;
+			guint64 data_size;
 
 			/* wait for header line */
 			if (!try_read_line(con)) return;
@@ -657,8 +661,10 @@ static void handle_read(liMemcachedCon *con) {
 
 			/* <bytes> */
 			pos = next + 1;
-			con->get_data_size = g_ascii_strtoll(pos, &next, 10);
-			if (pos == next) goto req_get_header_error;
+			if (!g_ascii_isdigit(*pos)) goto req_get_header_error;
+			data_size = g_ascii_strtoull(pos, &next, 10);
+			if (data_size > MAX_DATA_SIZE) goto req_get_header_error;
+			con->get_data_size = data_size;
 
 			/* [<cas unique>] */
 			if (' ' == *next) {
-- 
2.43.0


From 087c5aaa33e39ced188916e774453424f48ddfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:56 +0000
Subject: [PATCH 083/139] fix: wrong arguments were used in the lua memcached
 api

con:set used the value as callback, con:setq ignored the ttl, and values
which aren't strings weren't rejected.
---
 src/modules/mod_memcached.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index f0c8b64..6a1ca16 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -793,7 +793,7 @@ static int lua_mc_set(lua_State *L) {
 
 	con = li_lua_get_memcached_con(L, 1);
 	vr = li_lua_get_vrequest(L, 4);
-	if (NULL == con || !lua_isstring(L, 2) || (NULL == vr && !lua_isfunction(L, 4))) {
+	if (NULL == con || !lua_isstring(L, 2) || !lua_isstring(L, 3) || (NULL == vr && !lua_isfunction(L, 4))) {
 		lua_pushliteral(L, "lua_mc_set(con, key, value, cb | vr): wrong argument types");
 		lua_error(L);
 	}
@@ -804,7 +804,7 @@ static int lua_mc_set(lua_State *L) {
 	str = lua_tolstring(L, 3, &len);
 	value = li_const_gstring(str, len);
 
-	if (lua_gettop(L) == 5) {
+	if (lua_gettop(L) >= 5) {
 		ttl = lua_tonumber(L, 5);
 	} else {
 		ttl = 300;
@@ -837,7 +837,7 @@ static int lua_mc_set(lua_State *L) {
 
 	if (NULL == vr) {
 		/* lua callback function */
-		lua_pushvalue(L, 3); /* +1 */
+		lua_pushvalue(L, 4); /* +1 */
 		mreq->result_ref = luaL_ref(L, LUA_REGISTRYINDEX); /* -1 */
 	} else {
 		/* push result into table, wake vr if done */
@@ -866,7 +866,7 @@ static int lua_mc_setq(lua_State *L) {
 	}
 
 	con = li_lua_get_memcached_con(L, 1);
-	if (NULL == con || !lua_isstring(L, 2)) {
+	if (NULL == con || !lua_isstring(L, 2) || !lua_isstring(L, 3)) {
 		lua_pushliteral(L, "lua_mc_setq(con, key, value): wrong argument types");
 		lua_error(L);
 	}
@@ -877,8 +877,8 @@ static int lua_mc_setq(lua_State *L) {
 	str = lua_tolstring(L, 3, &len);
 	value = li_const_gstring(str, len);
 
-	if (lua_gettop(L) == 5) {
-		ttl = lua_tonumber(L, 5);
+	if (lua_gettop(L) >= 4) {
+		ttl = lua_tonumber(L, 4);
 	} else {
 		ttl = 300;
 	}
-- 
2.43.0


From 385deb53399e89ed8657e407a6caf5067da3e543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:56 +0000
Subject: [PATCH 084/139] fix: memory leak in the lua function memcached.new

---
 src/modules/mod_memcached.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_memcached.c b/src/modules/mod_memcached.c
index 6a1ca16..3b2ce78 100644
--- a/src/modules/mod_memcached.c
+++ b/src/modules/mod_memcached.c
@@ -1120,6 +1120,7 @@ static int mc_lua_new(lua_State *L) {
 	}
 
 	con = li_memcached_con_new(&wrk->loop, addr);
+	li_sockaddr_clear(&addr);
 	return li_lua_push_memcached_con(L, con);
 }
 
-- 
2.43.0


From e8e7554ddddf88e802a3565ff2c390f3f96704a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:55 +0000
Subject: [PATCH 085/139] fix: throttle pools were refilled too often with
 several workers

The clock of one worker can be behind the time of the last refill by
another worker; the difference underflowed, and the pool got the bytes of
a whole second. The wrap of the millisecond timestamps (every 49 days)
stopped all transfers in a pool.
---
 src/main/throttle.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index d2c4848..9219d9a 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -69,6 +69,13 @@ static guint msec_timestamp(li_tstamp now) {
 	return (1000u * (guint64) floor(now)) + (guint64)(1000.0 * fmod(now, 1.0));
 }
 
+/* milliseconds from last until now; 0 if last is in the near future: timestamps come from different
+ * workers, and the clock of another worker can be ahead */
+static guint msec_elapsed(guint last, guint now) {
+	guint diff = now - last;
+	return diff > G_MAXUINT - 60*1000u ? 0 : diff;
+}
+
 static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_count, guint time_diff) {
 	guint i;
 	gint64 connections = 0;
@@ -101,13 +108,13 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now) {
 	liThrottlePoolWorkerState *wpool = &pool->workers[wrk->ndx];
 	guint last = g_atomic_int_get((gint*) &pool->last_rearm);
-	guint time_diff = now - last;
+	guint time_diff = msec_elapsed(last, now);
 
 	if (HEDLEY_UNLIKELY(time_diff >= LI_THROTTLE_GRANULARITY)) {
 		g_mutex_lock(pool->rearm_mutex);
 			/* check again */
 			last = g_atomic_int_get((gint*) &pool->last_rearm);
-			time_diff = now - last;
+			time_diff = msec_elapsed(last, now);
 			if (HEDLEY_LIKELY(time_diff >= LI_THROTTLE_GRANULARITY)) {
 				S_throttle_pool_rearm_workers(pool, wrk->srv->worker_count, time_diff);
 				g_atomic_int_set((gint*) &pool->last_rearm, now);
@@ -115,7 +122,7 @@ static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now)
 		g_mutex_unlock(pool->rearm_mutex);
 	}
 
-	if (HEDLEY_UNLIKELY(wpool->last_rearm < last)) {
+	if (HEDLEY_UNLIKELY(0 != msec_elapsed(wpool->last_rearm, last))) {
 		/* distribute wpool->magazine */
 		GList *lnk;
 		guint connections = wpool->connections;
-- 
2.43.0


From 8066aa9ef8d9e49178a4b478272a9aa0adcf7c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:55 +0000
Subject: [PATCH 086/139] fix: crash if a connection limited by io.throttle_ip
 was aborted

The socket is closed before the request is reset, there is no throttle
state anymore.
---
 src/main/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 13b2e7d..4d59d2a 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -649,6 +649,7 @@ static liThrottleState* mainvr_throttle_out(liVRequest *vr) {
 	liConnection* con = li_connection_from_vrequest(vr);
 	LI_FORCE_ASSERT(NULL != con);
 
+	if (NULL == con->con_sock.callbacks) return NULL; /* socket already closed */
 	return con->con_sock.callbacks->throttle_out(con);
 }
 
@@ -656,6 +657,7 @@ static liThrottleState* mainvr_throttle_in(liVRequest *vr) {
 	liConnection* con = li_connection_from_vrequest(vr);
 	LI_FORCE_ASSERT(NULL != con);
 
+	if (NULL == con->con_sock.callbacks) return NULL; /* socket already closed */
 	return con->con_sock.callbacks->throttle_in(con);
 }
 
-- 
2.43.0


From 30d1144a279fa6bc3ebb4dc654ea5dc02c273d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:52 +0000
Subject: [PATCH 087/139] fix: throttle pools saved up more than their burst

Each refill after a pause added up to burst bytes to the magazines of the
workers, whatever they still contained (including the initial filling).
---
 src/main/throttle.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index 9219d9a..b98fa22 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -97,9 +97,14 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 		(guint) fill, (guint) time_diff, pool->rate, pool->burst);
 
 	for (i = 0; i < worker_count; ++i) {
-		gint wrk_fill;
+		gint wrk_fill, wrk_burst, wrk_magazine;
 		if (0 == wrk_connections[i]) continue;
 		wrk_fill = (fill * wrk_connections[i]) / connections;
+		/* don't save up more than burst; other threads only take from the magazine */
+		wrk_burst = (pool->burst * wrk_connections[i]) / connections;
+		wrk_magazine = g_atomic_int_get(&pool->workers[i].magazine);
+		if (wrk_magazine >= wrk_burst) continue;
+		wrk_fill = MIN(wrk_fill, wrk_burst - wrk_magazine);
 		throttle_debug("rearm worker %u: refill %u\n", i, wrk_fill);
 		g_atomic_int_add(&pool->workers[i].magazine, wrk_fill);
 	}
-- 
2.43.0


From a235c264e926484d9482e9b283ded27bf0dc285e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:40:59 +0000
Subject: [PATCH 088/139] fix: crash in mod_gnutls if sending an alert failed

li_stream_notify() can write right away; if the client is gone this ends
the connection, and the streams of the filter must not be used anymore.
---
 src/modules/gnutls_filter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index a5f1a75..8ab4ba9 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -200,6 +200,7 @@ static void f_close_with_alert(liGnuTLSFilter *f, int r) {
 
 	/* push alert to io */
 	li_stream_notify(&f->crypt_source);
+	if (f->closing || f->aborted) return; /* writing failed and the connection is gone already */
 	f->plain_source.out->is_closed = TRUE;
 	f->crypt_drain.out->is_closed = TRUE;
 	f_close_gnutls(f);
-- 
2.43.0


From d3ca57cb519cb2f3bbcf459d189fd76ba5a65a3a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:40:59 +0000
Subject: [PATCH 089/139] fix: undefined shifts in mod_fastcgi

Parameters longer than 127 bytes and application status values above
0x7fffffff shifted into the sign bit of an int.
---
 src/modules/fastcgi_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index d16f6a9..eb6a322 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -389,7 +389,7 @@ static void stream_send_begin(liChunkQueue *out, guint16 requestid) {
 static gboolean _append_ba_len(GByteArray *a, size_t len) {
 	if (len > G_MAXINT32) return FALSE;
 	if (len > 127) {
-		guint32 i = htonl(len | (1 << 31));
+		guint32 i = htonl(len | 0x80000000u);
 		g_byte_array_append(a, (const guint8*) &i, sizeof(i));
 	} else {
 		l_byte_array_append_c(a, (guint8) len);
@@ -548,7 +548,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 					li_stream_notify_later(&ctx->fcgi_in);
 
 					if (ctx->currentcon) {
-						guint32 appStatus = (endreq[0] << 24) | (endreq[1] << 16) | (endreq[2] << 8) | endreq[3];
+						guint32 appStatus = ((guint32) endreq[0] << 24) | (endreq[1] << 16) | (endreq[2] << 8) | endreq[3];
 						const liFastCGIBackendCallbacks *callbacks = ctx->pool->callbacks;
 
 						fcgi_debug("fastcgi end request: %i\n", appStatus);
-- 
2.43.0


From b8354e95cdefe871b9ca19bf07d8002bd4ce6e27 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:40:59 +0000
Subject: [PATCH 090/139] fix: undefined shift in progress.track for unknown
 request methods

---
 src/modules/mod_progress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_progress.c b/src/modules/mod_progress.c
index afaecfa..f22f413 100644
--- a/src/modules/mod_progress.c
+++ b/src/modules/mod_progress.c
@@ -126,7 +126,7 @@ static liHandlerResult progress_track(liVRequest *vr, gpointer param, gpointer *
 
 	UNUSED(context);
 
-	if (!(methods & (1 << vr->request.http_method))) {
+	if (vr->request.http_method == LI_HTTP_METHOD_UNSET || !(methods & (1 << vr->request.http_method))) {
 		/* method not tracked */
 	} else if (g_ptr_array_index(vr->plugin_ctx, p->id)) {
 		/* already tracked */
-- 
2.43.0


From ab9020fde03d00c30662d51b631a06823311605d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:40:59 +0000
Subject: [PATCH 091/139] fix: radix tree passed NULL to memcpy for a key
 without bits

---
 src/common/radix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/radix.c b/src/common/radix.c
index e4dc5b3..658a961 100644
--- a/src/common/radix.c
+++ b/src/common/radix.c
@@ -60,7 +60,7 @@ void li_radixtree_free(liRadixTree *tree, GFunc free_func, gpointer free_userdat
 static void rdx_get_input(rdxBase *dest, const void *key, guint32 bits) {
 	guint32 entries = INPUT_SIZE(bits), chars = INPUT_CHARS(bits), padding = entries*sizeof(rdxBase) - chars, i;
 
-	memcpy(dest, key, chars);
+	if (chars > 0) memcpy(dest, key, chars);
 	memset(((char*)dest) + chars, 0, padding);
 
 	for (i = 0; i < entries; i++) {
-- 
2.43.0


From 6e386e780d151a3122f602501837f36b50b51c90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:43:00 +0000
Subject: [PATCH 092/139] fix: debug.show_events leaked the socket addresses

---
 src/modules/mod_debug.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/mod_debug.c b/src/modules/mod_debug.c
index 04ea045..7c06d46 100644
--- a/src/modules/mod_debug.c
+++ b/src/modules/mod_debug.c
@@ -402,6 +402,9 @@ static void format_event(GString *out, liWorker *wrk, liEventBase *base) {
 
 			li_sockaddr_to_string(remote_addr, wrk->tmp_str, TRUE);
 			g_string_append_printf(out, ", remote=%s", wrk->tmp_str->str);
+
+			li_sockaddr_clear(&local_addr);
+			li_sockaddr_clear(&remote_addr);
 		}
 		break;
 	case LI_EVT_TIMER:
-- 
2.43.0


From dec9f48494c08b831a2b765b8ca96c46dbb79aa9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:43:00 +0000
Subject: [PATCH 093/139] fix: overflow in the start position of flv

---
 src/modules/mod_flv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_flv.c b/src/modules/mod_flv.c
index a6b23eb..c38fca0 100644
--- a/src/modules/mod_flv.c
+++ b/src/modules/mod_flv.c
@@ -91,6 +91,7 @@ static liHandlerResult flv(liVRequest *vr, gpointer param, gpointer *context) {
 				if (start[i] >= '0' && start[i] <= '9') {
 					pos *= 10;
 					pos += start[i] - '0';
+					if (pos > st.st_size) break; /* don't overflow */
 				}
 			}
 		} else {
-- 
2.43.0


From 08daf66bedfd6f599a93cef3587083b2c03e435f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:45:42 +0000
Subject: [PATCH 094/139] fix: invalid conditions in the config crashed the
 parser

A condition with an invalid regex, address or operator ended in a failed
assertion instead of an error message. Also free the string in all cases,
and never release the lvalue if no condition was created.
---
 src/main/condition.c      | 13 ++++++++++---
 src/main/config_parser.rl |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/main/condition.c b/src/main/condition.c
index 13c1d0a..5111be3 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -315,6 +315,7 @@ static liCondition* cond_new_match(liServer *srv, liCompOperator op, liCondition
 	if (!regex || err) {
 		ERROR(srv, "failed to compile regex \"%s\": %s", str->str, err->message);
 		g_error_free(err);
+		g_string_free(str, TRUE);
 		return NULL;
 	}
 
@@ -330,12 +331,16 @@ static liCondition* cond_new_match(liServer *srv, liCompOperator op, liCondition
 /* only IP and NOTIP */
 static liCondition* cond_new_ip(liServer *srv, liCompOperator op, liConditionLValue *lvalue, GString *str) {
 	liCondition *c;
-	c = condition_new(op, lvalue);
-	if (!condition_parse_ip_net(&c->rvalue, str->str)) {
+	liConditionRValue rvalue;
+	memset(&rvalue, 0, sizeof(rvalue));
+	if (!condition_parse_ip_net(&rvalue, str->str)) {
 		ERROR(srv, "Invalid ip address '%s'", str->str);
-		li_condition_release(srv, c);
+		g_string_free(str, TRUE);
 		return NULL;
 	}
+	g_string_free(str, TRUE);
+	c = condition_new(op, lvalue);
+	c->rvalue = rvalue;
 	return c;
 }
 
@@ -368,11 +373,13 @@ liCondition* li_condition_new_string(liServer *srv, liCompOperator op, liConditi
 	case LI_CONFIG_COND_LT:
 	case LI_CONFIG_COND_LE:
 		ERROR(srv, "Cannot compare strings with '%s'", li_comp_op_to_string(op));
+		g_string_free(str, TRUE);
 		return NULL;
 	}
 	ERROR(srv, "Condition creation failed: %s %s '%s'",
 		li_cond_lvalue_to_string(lvalue->type), li_comp_op_to_string(op),
 		str->str);
+	g_string_free(str, TRUE);
 	return NULL;
 }
 
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 98aceb8..770ebe2 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1717,6 +1717,10 @@ static gboolean p_condition_value(liConditionTree **tree, liConfigTokenizerConte
 		parse_error(ctx, error, "wrong value type, require string or integer");
 		goto error;
 	}
+	if (NULL == cond) {
+		parse_error(ctx, error, "couldn't create condition");
+		goto error;
+	}
 	li_value_free(rvalue);
 
 boolcond:
-- 
2.43.0


From 180877d4c34fec130f8759b2adeca2769906d19d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:45:42 +0000
Subject: [PATCH 095/139] fix: lua lock was initialized after its first use

It leaked the lock, and would have lost its state.
---
 src/main/base_lua.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/base_lua.c b/src/main/base_lua.c
index 174b412..c3bf78b 100644
--- a/src/main/base_lua.c
+++ b/src/main/base_lua.c
@@ -14,10 +14,11 @@ void li_lua_init(liLuaState* LL, liServer* srv, liWorker* wrk) {
 	lua_pushlightuserdata(L, LL);
 	lua_setfield(L, LUA_REGISTRYINDEX, LI_LUA_REGISTRY_STATE);
 
+	/* modules might lock the state in li_lua_init2 */
+	g_static_rec_mutex_init(&LL->lualock);
+
 	luaL_openlibs(LL->L);
 	li_lua_init2(LL, srv, wrk);
-
-	g_static_rec_mutex_init(&LL->lualock);
 }
 
 void li_lua_clear(liLuaState* LL) {
-- 
2.43.0


From 09b714f15b8217998815587fcb42a118141cbaa5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:45:42 +0000
Subject: [PATCH 096/139] fix: balancers were leaked on exit

The event loop doesn't run anymore when the actions are released.
---
 src/modules/mod_balance.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_balance.c b/src/modules/mod_balance.c
index bdfb96b..a491414 100644
--- a/src/modules/mod_balance.c
+++ b/src/modules/mod_balance.c
@@ -499,7 +499,12 @@ static liHandlerResult balancer_act_finished(liVRequest *vr, gpointer param, gpo
 
 static void balancer_act_free(liServer *srv, gpointer param) {
 	balancer *b = param;
-	UNUSED(srv);
+
+	if (g_atomic_int_get(&srv->exiting)) {
+		/* the event loops don't run anymore */
+		balancer_free(srv, b);
+		return;
+	}
 
 	g_mutex_lock(b->lock);
 
-- 
2.43.0


From 549b8d4596b6f52269cc646fa1e23eb662bfe2dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:50:44 +0000
Subject: [PATCH 097/139] fix: FastCGI connections were leaked if there was no
 end request message

If the backend ended stdout but not the request, the connection was never
given back: it used up a place in the pool, and its reference to the
request could be used after the request was gone.
---
 src/modules/fastcgi_stream.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index eb6a322..5e94b9d 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -634,6 +634,11 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 			ctx->fcgi_in.out->is_closed = TRUE;
 			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
+			if (NULL != ctx->currentcon) {
+				/* there won't be an end request message */
+				const liFastCGIBackendCallbacks *callbacks = ctx->pool->callbacks;
+				callbacks->end_request_cb(ctx->currentcon->vr, &ctx->pool->public, &ctx->currentcon->public, 0);
+			}
 		}
 	}
 }
@@ -653,7 +658,7 @@ static void fastcgi_stream_in(liStream *stream, liStreamEvent event) {
 		}
 		break;
 	case LI_STREAM_DISCONNECTED_DEST:
-		if (!ctx->stdout_closed) {
+		if (!ctx->stdout_closed || NULL != ctx->currentcon) {
 			fcgi_debug("request aborted (by client?) before request was finished\n");
 			fastcgi_reset(ctx);
 		} else {
-- 
2.43.0


From 5e7d00bc1f704145b1602510c655213bb78b7a50 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 098/139] fix: open and reversed capture ranges in patterns
 blocked the server

$[1-] looped through all positive integers for each request, reversed
ranges ending in 0 never terminated (or inserted one capture too much)
---
 src/main/pattern.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/main/pattern.c b/src/main/pattern.c
index d82ff9f..be78d31 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -320,7 +320,7 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 		}
 	} else {
 		from = MIN(from, a->len - 1); /* => from+1 is defined */
-		for (i = from + 1; i-- >= to; ) {
+		for (i = from + 1; i-- > to; ) {
 			GString *str = g_array_index(a, GString*, i);
 			if (NULL != str) {
 				li_g_string_append_len(pattern_result, GSTR_LEN(str));
@@ -331,22 +331,26 @@ void li_pattern_array_cb(GString *pattern_result, guint from, guint to, gpointer
 
 void li_pattern_regex_cb(GString *pattern_result, guint from, guint to, gpointer data) {
 	GMatchInfo *match_info = data;
-	guint i;
+	guint i, count;
 	gint start_pos, end_pos;
 
 	if (NULL == match_info) return;
 
+	/* number of captures including the complete match, there can't be anything behind */
+	count = MAX(0, g_match_info_get_match_count(match_info));
+	if (0 == count) return;
+
 	if (HEDLEY_LIKELY(from <= to)) {
-		to = MIN(to, G_MAXINT);
+		to = MIN(to, count - 1);
 		for (i = from; i <= to; i++) {
-			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
+			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos) && start_pos >= 0) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
 		}
 	} else {
-		from = MIN(from, G_MAXINT); /* => from+1 is defined */
-		for (i = from + 1; --i >= to; ) {
-			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos)) {
+		from = MIN(from, count - 1);
+		for (i = from + 1; i-- > to; ) {
+			if (g_match_info_fetch_pos(match_info, (gint) i, &start_pos, &end_pos) && start_pos >= 0) {
 				li_g_string_append_len(pattern_result, g_match_info_get_string(match_info) + start_pos, end_pos - start_pos);
 			}
 		}
-- 
2.43.0


From 0a8bc90fadbd8d5401a88696796512d9c4103906 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 099/139] fix: crash if a pattern used a header or environment
 variable without key

---
 src/main/condition.c | 2 +-
 src/main/pattern.c   | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/condition.c b/src/main/condition.c
index 5111be3..fc824f8 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -266,7 +266,7 @@ static gboolean condition_ip_from_socket(liConditionRValue *val, liSockAddrPtr a
 
 liConditionLValue* li_condition_lvalue_new(liCondLValue type, GString *key) {
 	liConditionLValue *lvalue = g_slice_new0(liConditionLValue);
-	if (type == LI_COMP_REQUEST_HEADER || type == LI_COMP_RESPONSE_HEADER) g_string_ascii_down(key);
+	if (NULL != key && (type == LI_COMP_REQUEST_HEADER || type == LI_COMP_RESPONSE_HEADER)) g_string_ascii_down(key);
 	lvalue->type = type;
 	lvalue->key = key;
 	lvalue->refcount = 1;
diff --git a/src/main/pattern.c b/src/main/pattern.c
index be78d31..a8254ec 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -184,6 +184,13 @@ liPattern *li_pattern_new(liServer *srv, const gchar* str) {
 				g_array_append_val(pattern, part);
 				c++;
 
+				if (NULL == key && (part.data.lvalue->type == LI_COMP_REQUEST_HEADER || part.data.lvalue->type == LI_COMP_RESPONSE_HEADER || part.data.lvalue->type == LI_COMP_ENVIRONMENT)) {
+					/* parse error */
+					ERROR(srv, "could not parse pattern (missing key for condition lvalue): \"%s\"", str);
+					li_pattern_free((liPattern*)pattern);
+					return NULL;
+				}
+
 				if (part.data.lvalue->type == LI_COMP_UNKNOWN) {
 					/* parse error */
 					ERROR(srv, "could not parse pattern (unknown condition lvalue): \"%s\"", str);
-- 
2.43.0


From 06f668e9edcc6c8a1b084ed492b7dbfabb1473b2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 100/139] fix: physical.* variables in patterns were empty
 unless in the stat cache

---
 include/lighttpd/condition.h |  2 ++
 src/main/condition.c         | 14 +++++++++++---
 src/main/pattern.c           |  2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/lighttpd/condition.h b/include/lighttpd/condition.h
index 96aeec0..a7563d2 100644
--- a/include/lighttpd/condition.h
+++ b/include/lighttpd/condition.h
@@ -153,6 +153,8 @@ typedef struct {
 } liConditionValue;
 
 LI_API liHandlerResult li_condition_get_value(GString *tmpstr, liVRequest *vr, liConditionLValue *lvalue, liConditionValue *res, liConditionValueType prefer);
+/* same, but doesn't wait for the result of stat() */
+LI_API liHandlerResult li_condition_get_value_sync(GString *tmpstr, liVRequest *vr, liConditionLValue *lvalue, liConditionValue *res, liConditionValueType prefer);
 /* tmpstr can be the same as for li_condition_get_value */
 LI_API gchar const* li_condition_value_to_string(GString *tmpstr, liConditionValue *value);
 
diff --git a/src/main/condition.c b/src/main/condition.c
index fc824f8..1a784b1 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -32,7 +32,7 @@ static const liConditionValueType cond_value_hints[] = {
 #endif
 
 /* uses tmpstr for temporary (and returned) strings */
-liHandlerResult li_condition_get_value(GString *tmpstr, liVRequest *vr, liConditionLValue *lvalue, liConditionValue *res, liConditionValueType prefer) {
+static liHandlerResult condition_get_value(GString *tmpstr, liVRequest *vr, liConditionLValue *lvalue, liConditionValue *res, liConditionValueType prefer, gboolean sync) {
 	liConInfo *coninfo = vr->coninfo;
 	liHandlerResult r;
 	struct stat st;
@@ -137,7 +137,7 @@ liHandlerResult li_condition_get_value(GString *tmpstr, liVRequest *vr, liCondit
 			break;
 		}
 
-		r = li_stat_cache_get(vr, vr->physical.path, &st, &err, NULL);
+		r = sync ? li_stat_cache_get_sync(vr, vr->physical.path, &st, &err, NULL) : li_stat_cache_get(vr, vr->physical.path, &st, &err, NULL);
 		if (r == LI_HANDLER_WAIT_FOR_EVENT) return r;
 
 		/* not found, return FALSE */
@@ -157,7 +157,7 @@ liHandlerResult li_condition_get_value(GString *tmpstr, liVRequest *vr, liCondit
 			break;
 		}
 
-		r = li_stat_cache_get(vr, vr->physical.path, &st, &err, NULL);
+		r = sync ? li_stat_cache_get_sync(vr, vr->physical.path, &st, &err, NULL) : li_stat_cache_get(vr, vr->physical.path, &st, &err, NULL);
 		if (r == LI_HANDLER_WAIT_FOR_EVENT) return r;
 
 		if (r == LI_HANDLER_GO_ON) { /* not found -> size "-1" */
@@ -203,6 +203,14 @@ liHandlerResult li_condition_get_value(GString *tmpstr, liVRequest *vr, liCondit
 	return LI_HANDLER_GO_ON;
 }
 
+liHandlerResult li_condition_get_value(GString *tmpstr, liVRequest *vr, liConditionLValue *lvalue, liConditionValue *res, liConditionValueType prefer) {
+	return condition_get_value(tmpstr, vr, lvalue, res, prefer, FALSE);
+}
+
+liHandlerResult li_condition_get_value_sync(GString *tmpstr, liVRequest *vr, liConditionLValue *lvalue, liConditionValue *res, liConditionValueType prefer) {
+	return condition_get_value(tmpstr, vr, lvalue, res, prefer, TRUE);
+}
+
 gchar const* li_condition_value_to_string(GString *tmpstr, liConditionValue *value) {
 	switch (value->match_type) {
 	case LI_COND_VALUE_HINT_ANY:
diff --git a/src/main/pattern.c b/src/main/pattern.c
index a8254ec..f1a140e 100644
--- a/src/main/pattern.c
+++ b/src/main/pattern.c
@@ -295,7 +295,7 @@ void li_pattern_eval(liVRequest *vr, GString *dest, liPattern *pattern, liPatter
 
 			if (NULL == tmpstr) tmpstr = g_string_sized_new(127);
 
-			res = li_condition_get_value(tmpstr, vr, part->data.lvalue, &cond_val, LI_COND_VALUE_HINT_STRING);
+			res = li_condition_get_value_sync(tmpstr, vr, part->data.lvalue, &cond_val, LI_COND_VALUE_HINT_STRING);
 			if (res == LI_HANDLER_GO_ON) {
 				if (encoded) {
 					li_string_encode_append(li_condition_value_to_string(tmpstr, &cond_val), dest, LI_ENCODING_URI);
-- 
2.43.0


From 64e0952be02c92cd7c43469b93146a881ccaa6e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:09:09 +0000
Subject: [PATCH 101/139] fix: docroot used files instead of skipping to the
 next directory

---
 src/main/plugin_core.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index 2cfa39c..182f6c4 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -187,7 +187,15 @@ static liHandlerResult core_handle_docroot(liVRequest *vr, gpointer param, gpoin
 
 		/* check if path exists */
 		switch (li_stat_cache_get(vr, vr->physical.doc_root, &st, &err, NULL)) {
-		case LI_HANDLER_GO_ON: break;
+		case LI_HANDLER_GO_ON:
+			if (!S_ISDIR(st.st_mode)) {
+				/* not a directory, try next pattern */
+				if (CORE_OPTION(LI_CORE_OPTION_DEBUG_REQUEST_HANDLING).boolean) {
+					VR_DEBUG(vr, "docroot: not a directory: \"%s\", trying next", vr->physical.doc_root->str);
+				}
+				continue;
+			}
+			break;
 		case LI_HANDLER_WAIT_FOR_EVENT:
 			*context = GINT_TO_POINTER(i);
 			if (CORE_OPTION(LI_CORE_OPTION_DEBUG_REQUEST_HANDLING).boolean) {
-- 
2.43.0


From 23b38b447987a71bd53841a932947593217eef9b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:09:09 +0000
Subject: [PATCH 102/139] fix: prefixes of condition variables were accepted as
 names

---
 src/main/condition.c | 50 ++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/main/condition.c b/src/main/condition.c
index 1a784b1..898bd2e 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -509,6 +509,10 @@ const char* li_cond_lvalue_to_string(liCondLValue t) {
 	return "<unknown>";
 }
 
+static gboolean lvalue_is(const gchar *str, guint len, const gchar *name, guint namelen) {
+	return len == namelen && 0 == memcmp(str, name, len);
+}
+
 liCondLValue li_cond_lvalue_from_string(const gchar *str, guint len) {
 	gchar *c = (gchar*)str;
 
@@ -523,33 +527,33 @@ liCondLValue li_cond_lvalue_from_string(const gchar *str, guint len) {
 			return LI_COMP_UNKNOWN;
 		}
 
-		if (strncmp(c, "localip", len) == 0)
+		if (lvalue_is(c, len, CONST_STR_LEN("localip")))
 			return LI_COMP_REQUEST_LOCALIP;
-		else if (strncmp(c, "localport", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("localport")))
 			return LI_COMP_REQUEST_LOCALPORT;
-		else if (strncmp(c, "remoteip", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("remoteip")))
 			return LI_COMP_REQUEST_REMOTEIP;
-		else if (strncmp(c, "remoteport", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("remoteport")))
 			return LI_COMP_REQUEST_REMOTEPORT;
-		else if (strncmp(c, "path", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("path")))
 			return LI_COMP_REQUEST_PATH;
-		else if (strncmp(c, "raw_path", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("raw_path")))
 			return LI_COMP_REQUEST_RAW_PATH;
-		else if (strncmp(c, "host", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("host")))
 			return LI_COMP_REQUEST_HOST;
-		else if (strncmp(c, "scheme", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("scheme")))
 			return LI_COMP_REQUEST_SCHEME;
-		else if (strncmp(c, "query", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("query")))
 			return LI_COMP_REQUEST_QUERY_STRING;
-		else if (strncmp(c, "method", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("method")))
 			return LI_COMP_REQUEST_METHOD;
-		else if (strncmp(c, "length", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("length")))
 			return LI_COMP_REQUEST_CONTENT_LENGTH;
-		else if (strncmp(c, "header", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("header")))
 			return LI_COMP_REQUEST_HEADER;
-		else if (strncmp(c, "environment", len) == 0 || strncmp(c, "env", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("environment")) || lvalue_is(c, len, CONST_STR_LEN("env")))
 			return LI_COMP_ENVIRONMENT;
-		else if (strncmp(c, "is_handled", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("is_handled")))
 			return LI_COMP_REQUEST_IS_HANDLED;
 	} else if (g_str_has_prefix(c, "phys")) {
 		if (g_str_has_prefix(c, "phys.")) {
@@ -562,19 +566,19 @@ liCondLValue li_cond_lvalue_from_string(const gchar *str, guint len) {
 			return LI_COMP_UNKNOWN;
 		}
 
-		if (strncmp(c, "path", len) == 0)
+		if (lvalue_is(c, len, CONST_STR_LEN("path")))
 			return LI_COMP_PHYSICAL_PATH;
-		else if (strncmp(c, "exists", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("exists")))
 			return LI_COMP_PHYSICAL_EXISTS;
-		else if (strncmp(c, "size", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("size")))
 			return LI_COMP_PHYSICAL_SIZE;
-		else if (strncmp(c, "is_file", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("is_file")))
 			return LI_COMP_PHYSICAL_ISFILE;
-		else if (strncmp(c, "is_dir", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("is_dir")))
 			return LI_COMP_PHYSICAL_ISDIR;
-		else if (strncmp(c, "docroot", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("docroot")))
 			return LI_COMP_PHYSICAL_DOCROOT;
-		else if (strncmp(c, "pathinfo", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("pathinfo")))
 			return LI_COMP_PHYSICAL_PATHINFO;
 	} else if (g_str_has_prefix(c, "resp")) {
 		if (g_str_has_prefix(c, "resp.")) {
@@ -587,9 +591,9 @@ liCondLValue li_cond_lvalue_from_string(const gchar *str, guint len) {
 			return LI_COMP_UNKNOWN;
 		}
 
-		if (strncmp(c, "status", len) == 0)
+		if (lvalue_is(c, len, CONST_STR_LEN("status")))
 			return LI_COMP_RESPONSE_STATUS;
-		else if (strncmp(c, "header", len) == 0)
+		else if (lvalue_is(c, len, CONST_STR_LEN("header")))
 			return LI_COMP_RESPONSE_HEADER;
 	}
 
-- 
2.43.0


From 29fa99b0824708e07272f5b8ae346ede3f1ea626 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:11:02 +0000
Subject: [PATCH 103/139] fix: physical.exists had a different name in lua

---
 src/main/condition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/condition.c b/src/main/condition.c
index 898bd2e..16bf8fc 100644
--- a/src/main/condition.c
+++ b/src/main/condition.c
@@ -493,7 +493,7 @@ const char* li_cond_lvalue_to_string(liCondLValue t) {
 	case LI_COMP_REQUEST_CONTENT_LENGTH: return "request.length";
 	case LI_COMP_REQUEST_IS_HANDLED: return "request.is_handled";
 	case LI_COMP_PHYSICAL_PATH: return "physical.path";
-	case LI_COMP_PHYSICAL_EXISTS: return "physical.exist";
+	case LI_COMP_PHYSICAL_EXISTS: return "physical.exists";
 	case LI_COMP_PHYSICAL_SIZE: return "physical.size";
 	case LI_COMP_PHYSICAL_ISDIR: return "physical.is_dir";
 	case LI_COMP_PHYSICAL_ISFILE: return "physical.is_file";
-- 
2.43.0


From 45e2ab71bdf58453b89aa29908e88da7b73431e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 104/139] fix: invalid vhost.map_regex entries crashed the
 server on startup

---
 src/modules/mod_vhost.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/mod_vhost.c b/src/modules/mod_vhost.c
index 90a073d..96b00ab 100644
--- a/src/modules/mod_vhost.c
+++ b/src/modules/mod_vhost.c
@@ -216,7 +216,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 
 		if (LI_VALUE_ACTION != li_value_type(entryValue)) {
 			ERROR(srv, "vhost.map_regex expects a hashtable/key-value list with action values as parameter, %s value given", li_value_type_string(entryValue));
-			vhost_map_free(srv, mrd);
+			vhost_map_regex_free(srv, mrd);
 			return NULL;
 		}
 
@@ -232,7 +232,7 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 		if (NULL == entryKeyStr) {
 			if (NULL != mrd->default_action) {
 				ERROR(srv, "%s", "vhost.map_regex: already have a default action");
-				vhost_map_free(srv, mrd);
+				vhost_map_regex_free(srv, mrd);
 				return NULL;
 			}
 			mrd->default_action = li_value_extract(entryValue);
@@ -241,16 +241,17 @@ static liAction* vhost_map_regex_create(liServer *srv, liWorker *wrk, liPlugin*
 			vhost_map_regex_entry map_entry;
 
 			map_entry.regex = g_regex_new(entryKeyStr->str, G_REGEX_RAW | G_REGEX_OPTIMIZE, 0, &err);
-			g_string_free(entryKeyStr, TRUE);
 
 			if (NULL == map_entry.regex) {
 				LI_FORCE_ASSERT(NULL != err);
 				vhost_map_regex_free(srv, mrd);
 				ERROR(srv, "vhost.map_regex: error compiling regex \"%s\": %s", entryKeyStr->str, err->message);
+				g_string_free(entryKeyStr, TRUE);
 				g_error_free(err);
 				return NULL;
 			}
 			LI_FORCE_ASSERT(NULL == err);
+			g_string_free(entryKeyStr, TRUE);
 
 			map_entry.action = li_value_extract(entryValue);
 
-- 
2.43.0


From 0caf653cf3ce0c4f628047adf0998ddee2a8dc9f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:13:51 +0000
Subject: [PATCH 105/139] fix: hostnames with uppercase letters in vhost.map
 never matched

---
 src/modules/mod_vhost.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/mod_vhost.c b/src/modules/mod_vhost.c
index 96b00ab..4b261d2 100644
--- a/src/modules/mod_vhost.c
+++ b/src/modules/mod_vhost.c
@@ -119,6 +119,8 @@ static liAction* vhost_map_create(liServer *srv, liWorker *wrk, liPlugin* p, liV
 			}
 			md->default_action = li_value_extract(entryValue);
 		} else {
+			/* the hostname of a request is always lowercase too */
+			g_string_ascii_down(entryKeyStr);
 			if (NULL != g_hash_table_lookup(md->hash, entryKeyStr)) {
 				ERROR(srv, "vhost.map: duplicate entry for '%s'", entryKeyStr->str);
 				g_string_free(entryKeyStr, TRUE);
-- 
2.43.0


From ceecd561b2a93b7f33e1cf215752723ff0a6fca4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:23:50 +0000
Subject: [PATCH 106/139] fix: bytes sent to a client after its connection
 ended were missing in the traffic counters

Remaining response data can still be written to the socket after the
connection object was detached (client closed its side); count it for
the worker.
---
 src/main/connection.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 4d59d2a..eaceaa5 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -39,6 +39,11 @@ void li_connection_simple_tcp(liConnection **pcon, liIOStream *stream, gpointer
 				li_connection_update_io_wait(con);
 			}
 		}
+	} else {
+		/* the connection is gone, but remaining data might still have been sent to the client */
+		liWorker *wrk = li_worker_from_iostream(stream);
+		if (NULL != stream->stream_in.out) wrk->stats.bytes_in += stream->stream_in.out->bytes_in - transfer_in;
+		if (NULL != stream->stream_out.out) wrk->stats.bytes_out += stream->stream_out.out->bytes_out - transfer_out;
 	}
 
 	switch (event) {
-- 
2.43.0


From c928db3cf2a2734d226eabb141f65ac480fae659 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:23:50 +0000
Subject: [PATCH 107/139] fix: status page (runtime details) skipped every
 sixth loaded module

---
 src/modules/mod_status.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/modules/mod_status.c b/src/modules/mod_status.c
index 18ea43a..83e3276 100644
--- a/src/modules/mod_status.c
+++ b/src/modules/mod_status.c
@@ -1202,17 +1202,14 @@ static liHandlerResult status_info_runtime(liVRequest *vr, liPlugin *p) {
 		for (i = 1; i < list->len; i++) {
 			if (col == 0) {
 				li_g_string_append_len(html, CONST_STR_LEN("			<tr>\n"));
-				col++;
 			}
-			else if (col == 5) {
+
+			g_string_append_printf(html, "				<td class=\"left\">%s</td>\n", g_array_index(list, gchar*, i));
+
+			if (++col == 5) {
 				li_g_string_append_len(html, CONST_STR_LEN("			</tr>\n"));
 				col = 0;
-				continue;
-			} else {
-				col++;
 			}
-
-			g_string_append_printf(html, "				<td class=\"left\">%s</td>\n", g_array_index(list, gchar*, i));
 		}
 
 		if (col) {
-- 
2.43.0


From 071f589b1f5523508b9ca0fb8077d7349a98e0c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:23:50 +0000
Subject: [PATCH 108/139] fix: plain status page divided the number of active
 connections by five

active_cons_5s isn't a sum over five seconds, the html page doesn't
divide it either.
---
 src/modules/mod_status.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_status.c b/src/modules/mod_status.c
index 83e3276..4f301ee 100644
--- a/src/modules/mod_status.c
+++ b/src/modules/mod_status.c
@@ -856,7 +856,7 @@ static GString *status_info_plain(liVRequest *vr, guint uptime, liStatistics *to
 	li_g_string_append_len(html, CONST_STR_LEN("\ntraffic_in_avg_5sec: "));
 	li_string_append_int(html, totals->bytes_in_5s_diff / 5);
 	li_g_string_append_len(html, CONST_STR_LEN("\nconnections_avg_5sec: "));
-	li_string_append_int(html, totals->active_cons_5s / 5);
+	li_string_append_int(html, totals->active_cons_5s);
 	/* connection states */
 	li_g_string_append_len(html, CONST_STR_LEN("\n\n# Connection States\nconnection_state_start: "));
 	li_string_append_int(html, connection_count[LI_CON_STATE_REQUEST_START]);
-- 
2.43.0


From dc28a171dd432710da136a88d6f003d5b1d28bc1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 109/139] fix: TLS close alerts sent by mod_gnutls were missing
 in the traffic counters

---
 src/modules/mod_gnutls.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index 310723f..a1ffbb3 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -388,7 +388,12 @@ static void close_cb(liGnuTLSFilter *f, gpointer data) {
 
 	if (NULL != con && !con->info.aborted && conctx->sock_stream->can_write && !conctx->sock_stream->throttled_out) {
 		/* send the close alert: disconnecting the tls filter closes the socket */
-		li_stream_simple_socket_io_cb_with_context(conctx->sock_stream, LI_IOSTREAM_WRITE, &conctx->simple_socket_data);
+		liIOStream *stream = conctx->sock_stream;
+		goffset transfer_out = stream->stream_out.out->bytes_out;
+		li_stream_simple_socket_io_cb_with_context(stream, LI_IOSTREAM_WRITE, &conctx->simple_socket_data);
+		if (NULL != stream->stream_out.out && stream->stream_out.out->bytes_out > transfer_out) {
+			li_vrequest_update_stats_out(con->mainvr, stream->stream_out.out->bytes_out - transfer_out);
+		}
 	}
 
 	conctx->tls_filter = NULL;
-- 
2.43.0


From 448bc59bf397e96a9dac3e5a3ac3db2571877bc2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 110/139] fix: config: multiplication and division of integers
 returned the sum

---
 src/angel/angel_config_parser.rl | 4 ++--
 src/main/config_parser.rl        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index de87c8b..483aa58 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -584,7 +584,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in product");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number * v2->data.number);
 				break;
 			case TK_DIVIDE:
 				if (0 == v2->data.number) {
@@ -595,7 +595,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in quotient");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number / v2->data.number);
 				break;
 			default:
 				parse_error(ctx, error, "unsupported operation on numbers");
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 770ebe2..8ce7c99 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -790,7 +790,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in product");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number * v2->data.number);
 				break;
 			case TK_DIVIDE:
 				if (0 == v2->data.number) {
@@ -801,7 +801,7 @@ static gboolean op_execute(liValue **vresult, liConfigToken op, liValue *v1, liV
 					parse_error(ctx, error, "overflow in quotient");
 					goto error;
 				}
-				*vresult = li_value_new_number(v1->data.number + v2->data.number);
+				*vresult = li_value_new_number(v1->data.number / v2->data.number);
 				break;
 			default:
 				parse_error(ctx, error, "unsupported operation on numbers");
-- 
2.43.0


From 8b28c04a6a5cf93b65cfd8f41f8243a75ea7ee92 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 111/139] fix: config: '-' before a digit lost the sign of
 integers and was no operator

---
 src/angel/angel_config_parser.rl | 59 +++++++-------------------------
 src/main/config_parser.rl        | 59 +++++++-------------------------
 2 files changed, 26 insertions(+), 92 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index 483aa58..ee8fa30 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -51,7 +51,6 @@ struct liConfigTokenizerContext {
 	const gchar *mark;
 
 	/* number stuff */
-	gboolean negative;
 	gint64 suffix_factor;
 
 	/* information about currently parsed file */
@@ -162,67 +161,36 @@ GQuark li_angel_config_parser_error_quark(void) {
 	}
 
 	action int_start {
-		ctx->negative = FALSE;
 		ctx->token_number = 0;
 		ctx->suffix_factor = 1;
 	}
-	action int_negative {
-		ctx->negative = TRUE;
-	}
 	action dec_digit {
 		gint64 digit = fc - '0';
-		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 10 + digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 10*ctx->token_number - digit;
-		} else {
-			if (ctx->token_number > G_MAXINT64 / 10 - digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 10*ctx->token_number + digit;
+		if (ctx->token_number > G_MAXINT64 / 10 - digit) {
+			return tokenizer_error(ctx, error, "integer overflow");
 		}
+		ctx->token_number = 10*ctx->token_number + digit;
 	}
 	action oct_digit {
 		gint64 digit = fc - '0';
-		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 8 + digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 8*ctx->token_number - digit;
-		} else {
-			if (ctx->token_number > G_MAXINT64 / 8 - digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 8*ctx->token_number + digit;
+		if (ctx->token_number > G_MAXINT64 / 8 - digit) {
+			return tokenizer_error(ctx, error, "integer overflow");
 		}
+		ctx->token_number = 8*ctx->token_number + digit;
 	}
 	action hex_digit {
 		gint64 digit;
 		if (fc >= '0' && fc <= '9') digit = fc - '0';
 		else if (fc >= 'a' && fc <= 'f') digit = fc - 'a' + 10;
 		else /*if (fc >= 'A' && fc <= 'F')*/ digit = fc - 'A' + 10;
-		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 16 + digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 16*ctx->token_number - digit;
-		} else {
-			if (ctx->token_number > G_MAXINT64 / 16 - digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 16*ctx->token_number + digit;
+		if (ctx->token_number > G_MAXINT64 / 16 - digit) {
+			return tokenizer_error(ctx, error, "integer overflow");
 		}
+		ctx->token_number = 16*ctx->token_number + digit;
 	}
 	action integer_suffix {
-		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / ctx->suffix_factor) {
-				return tokenizer_error(ctx, error, "integer overflow in suffix");
-			}
-		} else if (ctx->token_number < 0) {
-			if (ctx->token_number > G_MAXINT64 / ctx->suffix_factor) {
-				return tokenizer_error(ctx, error, "integer overflow in suffix");
-			}
+		if (ctx->token_number > G_MAXINT64 / ctx->suffix_factor) {
+			return tokenizer_error(ctx, error, "integer overflow in suffix");
 		}
 		ctx->token_number *= ctx->suffix_factor;
 	}
@@ -268,7 +236,7 @@ GQuark li_angel_config_parser_error_quark(void) {
 		| 'days'    %{ ctx->suffix_factor = G_GINT64_CONSTANT(24)*3600; }
 		);
 	integer_suffix = ( integer_suffix_bytes | integer_suffix_bits | integer_suffix_seconds ) %integer_suffix;
-	integer_base = ('-'@int_negative)?
+	integer_base =
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
 		| '0' ([0-9]+)$oct_digit
@@ -311,9 +279,8 @@ GQuark li_angel_config_parser_error_quark(void) {
 		);
 
 	operator =
-		 # minus not accepted here in front of a digit
-		  '-'    %{ return TK_MINUS; } (noise_char | operator_separator_char | alpha | '_' | '"' | "'")? |
 		( '+'    %{ return TK_PLUS; }
+		| '-'    %{ return TK_MINUS; }
 		| '*'    %{ return TK_MULTIPLY; }
 		| '/'    %{ return TK_DIVIDE; }
 		| '!'    %{ return TK_NOT; }
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 8ce7c99..4bdec9e 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -88,7 +88,6 @@ struct liConfigTokenizerContext {
 	const gchar *mark;
 
 	/* number stuff */
-	gboolean negative;
 	gint64 suffix_factor;
 
 	/* information about currently parsed file */
@@ -210,67 +209,36 @@ GQuark li_config_error_quark(void) {
 	}
 
 	action int_start {
-		ctx->negative = FALSE;
 		ctx->token_number = 0;
 		ctx->suffix_factor = 1;
 	}
-	action int_negative {
-		ctx->negative = TRUE;
-	}
 	action dec_digit {
 		gint64 digit = fc - '0';
-		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 10 + digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 10*ctx->token_number - digit;
-		} else {
-			if (ctx->token_number > G_MAXINT64 / 10 - digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 10*ctx->token_number + digit;
+		if (ctx->token_number > G_MAXINT64 / 10 - digit) {
+			return tokenizer_error(ctx, error, "integer overflow");
 		}
+		ctx->token_number = 10*ctx->token_number + digit;
 	}
 	action oct_digit {
 		gint64 digit = fc - '0';
-		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 8 + digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 8*ctx->token_number - digit;
-		} else {
-			if (ctx->token_number > G_MAXINT64 / 8 - digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 8*ctx->token_number + digit;
+		if (ctx->token_number > G_MAXINT64 / 8 - digit) {
+			return tokenizer_error(ctx, error, "integer overflow");
 		}
+		ctx->token_number = 8*ctx->token_number + digit;
 	}
 	action hex_digit {
 		gint64 digit;
 		if (fc >= '0' && fc <= '9') digit = fc - '0';
 		else if (fc >= 'a' && fc <= 'f') digit = fc - 'a' + 10;
 		else /*if (fc >= 'A' && fc <= 'F')*/ digit = fc - 'A' + 10;
-		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / 16 + digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 16*ctx->token_number - digit;
-		} else {
-			if (ctx->token_number > G_MAXINT64 / 16 - digit) {
-				return tokenizer_error(ctx, error, "integer overflow");
-			}
-			ctx->token_number = 16*ctx->token_number + digit;
+		if (ctx->token_number > G_MAXINT64 / 16 - digit) {
+			return tokenizer_error(ctx, error, "integer overflow");
 		}
+		ctx->token_number = 16*ctx->token_number + digit;
 	}
 	action integer_suffix {
-		if (ctx->negative) {
-			if (ctx->token_number < G_MININT64 / ctx->suffix_factor) {
-				return tokenizer_error(ctx, error, "integer overflow in suffix");
-			}
-		} else if (ctx->token_number < 0) {
-			if (ctx->token_number > G_MAXINT64 / ctx->suffix_factor) {
-				return tokenizer_error(ctx, error, "integer overflow in suffix");
-			}
+		if (ctx->token_number > G_MAXINT64 / ctx->suffix_factor) {
+			return tokenizer_error(ctx, error, "integer overflow in suffix");
 		}
 		ctx->token_number *= ctx->suffix_factor;
 	}
@@ -316,7 +284,7 @@ GQuark li_config_error_quark(void) {
 		| 'days'    %{ ctx->suffix_factor = G_GINT64_CONSTANT(24)*3600; }
 		);
 	integer_suffix = ( integer_suffix_bytes | integer_suffix_bits | integer_suffix_seconds ) %integer_suffix;
-	integer_base = ('-'@int_negative)?
+	integer_base =
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
 		| '0' ([0-9]+)$oct_digit
@@ -369,9 +337,8 @@ GQuark li_config_error_quark(void) {
 		);
 
 	operator =
-		 # minus not accepted here in front of a digit
-		  '-'    %{ return TK_MINUS; } (noise_char | operator_separator_char | alpha | '_' | '"' | "'")? |
 		( '+'    %{ return TK_PLUS; }
+		| '-'    %{ return TK_MINUS; }
 		| '*'    %{ return TK_MULTIPLY; }
 		| '/'    %{ return TK_DIVIDE; }
 		| '!'    %{ return TK_NOT; }
-- 
2.43.0


From 9e91dc153941e8ce740e6f63cd8227dffccbf2f5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 112/139] fix: config: largest integer literals were rejected
 as overflow

---
 src/angel/angel_config_parser.rl | 6 +++---
 src/main/config_parser.rl        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index ee8fa30..1ed24ad 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -166,14 +166,14 @@ GQuark li_angel_config_parser_error_quark(void) {
 	}
 	action dec_digit {
 		gint64 digit = fc - '0';
-		if (ctx->token_number > G_MAXINT64 / 10 - digit) {
+		if (ctx->token_number > (G_MAXINT64 - digit) / 10) {
 			return tokenizer_error(ctx, error, "integer overflow");
 		}
 		ctx->token_number = 10*ctx->token_number + digit;
 	}
 	action oct_digit {
 		gint64 digit = fc - '0';
-		if (ctx->token_number > G_MAXINT64 / 8 - digit) {
+		if (ctx->token_number > (G_MAXINT64 - digit) / 8) {
 			return tokenizer_error(ctx, error, "integer overflow");
 		}
 		ctx->token_number = 8*ctx->token_number + digit;
@@ -183,7 +183,7 @@ GQuark li_angel_config_parser_error_quark(void) {
 		if (fc >= '0' && fc <= '9') digit = fc - '0';
 		else if (fc >= 'a' && fc <= 'f') digit = fc - 'a' + 10;
 		else /*if (fc >= 'A' && fc <= 'F')*/ digit = fc - 'A' + 10;
-		if (ctx->token_number > G_MAXINT64 / 16 - digit) {
+		if (ctx->token_number > (G_MAXINT64 - digit) / 16) {
 			return tokenizer_error(ctx, error, "integer overflow");
 		}
 		ctx->token_number = 16*ctx->token_number + digit;
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 4bdec9e..4e8e881 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -214,14 +214,14 @@ GQuark li_config_error_quark(void) {
 	}
 	action dec_digit {
 		gint64 digit = fc - '0';
-		if (ctx->token_number > G_MAXINT64 / 10 - digit) {
+		if (ctx->token_number > (G_MAXINT64 - digit) / 10) {
 			return tokenizer_error(ctx, error, "integer overflow");
 		}
 		ctx->token_number = 10*ctx->token_number + digit;
 	}
 	action oct_digit {
 		gint64 digit = fc - '0';
-		if (ctx->token_number > G_MAXINT64 / 8 - digit) {
+		if (ctx->token_number > (G_MAXINT64 - digit) / 8) {
 			return tokenizer_error(ctx, error, "integer overflow");
 		}
 		ctx->token_number = 8*ctx->token_number + digit;
@@ -231,7 +231,7 @@ GQuark li_config_error_quark(void) {
 		if (fc >= '0' && fc <= '9') digit = fc - '0';
 		else if (fc >= 'a' && fc <= 'f') digit = fc - 'a' + 10;
 		else /*if (fc >= 'A' && fc <= 'F')*/ digit = fc - 'A' + 10;
-		if (ctx->token_number > G_MAXINT64 / 16 - digit) {
+		if (ctx->token_number > (G_MAXINT64 - digit) / 16) {
 			return tokenizer_error(ctx, error, "integer overflow");
 		}
 		ctx->token_number = 16*ctx->token_number + digit;
-- 
2.43.0


From fe013ebe2f32d37b82d8f1af00a1670030d4e683 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 113/139] fix: config: octal integers accepted the digits 8 and
 9

---
 src/angel/angel_config_parser.rl | 2 +-
 src/main/config_parser.rl        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index 1ed24ad..f618929 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -239,7 +239,7 @@ GQuark li_angel_config_parser_error_quark(void) {
 	integer_base =
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
-		| '0' ([0-9]+)$oct_digit
+		| '0' ([0-7]+)$oct_digit
 		| '0x' (xdigit+)$hex_digit
 		)>int_start;
 	# noise_char only matches after integer_suffix, as noise matches all noise chars greedy
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 4e8e881..6782823 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -287,7 +287,7 @@ GQuark li_config_error_quark(void) {
 	integer_base =
 		( ([1-9] [0-9]*)$dec_digit
 		| '0'
-		| '0' ([0-9]+)$oct_digit
+		| '0' ([0-7]+)$oct_digit
 		| '0x' (xdigit+)$hex_digit
 		)>int_start;
 	# noise_char only matches after integer_suffix, as noise matches all noise chars greedy
-- 
2.43.0


From fecc6fe221d066966640c9d2943aa32bbd1a75dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 114/139] fix: config: use after free when cast(int) failed

---
 src/angel/angel_config_parser.rl | 3 ++-
 src/main/config_parser.rl        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index f618929..0fac12e 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -802,8 +802,9 @@ static gboolean p_value(gint *key_value_nesting, liValue **value, liConfigToken
 				errno = 0;
 				i = g_ascii_strtoll(s->str, &endptr, 10);
 				if (errno != 0 || endptr != s->str + s->len || s->len == 0) {
+					parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
 					li_value_free(v);
-					return parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
+					return FALSE;
 				}
 				li_value_free(v);
 				v = li_value_new_number(i);
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 6782823..0b1e495 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1343,8 +1343,9 @@ static gboolean p_value(gint *key_value_nesting, liValue **value, liConfigToken
 				errno = 0;
 				i = g_ascii_strtoll(s->str, &endptr, 10);
 				if (errno != 0 || endptr != s->str + s->len || s->len == 0) {
+					parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
 					li_value_free(v);
-					return parse_error(ctx, error, "cast(int) failed, not a valid number: '%s'", s->str);
+					return FALSE;
 				}
 				li_value_free(v);
 				v = li_value_new_number(i);
-- 
2.43.0


From 67ff3003e17d14e713df85bcd1e3a4ad9c83b070 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 115/139] fix: config: strings with e prefix were not
 recognized

---
 src/angel/angel_config_parser.rl | 6 +++++-
 src/main/config_parser.rl        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index 0fac12e..e634100 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -260,7 +260,11 @@ GQuark li_angel_config_parser_error_quark(void) {
 		| 'true'          %{ return TK_TRUE; }
 		) %(identifier, 1) (noise_char | operator_char)?;
 
-	name = ( (alpha | '_') (alnum | [._])* - keywords) >mark %name (noise_char | operator_char)?;
+	# 'e' followed by a quote starts a string
+	name =
+		( ( (alpha | '_') (alnum | [._])* - keywords - 'e' ) >mark %name (noise_char | operator_char)?
+		| 'e' >mark %name ((noise_char | operator_char) - ["'])?
+		);
 
 	cast =
 		( 'cast' noise '(' noise 'int' noise ')'      @{ ++fpc; return TK_CAST_INT; }
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 0b1e495..3f2f795 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -318,7 +318,11 @@ GQuark li_config_error_quark(void) {
 		| 'true'          %{ return TK_TRUE; }
 		) %(identifier, 1) (noise_char | operator_char)?;
 
-	name = ( (alpha | '_') (alnum | [._])* - keywords) >mark %name (noise_char | operator_char)?;
+	# 'e' followed by a quote starts a string
+	name =
+		( ( (alpha | '_') (alnum | [._])* - keywords - 'e' ) >mark %name (noise_char | operator_char)?
+		| 'e' >mark %name ((noise_char | operator_char) - ["'])?
+		);
 
 	cast =
 		( 'cast' noise '(' noise 'int' noise ')'      @{ ++fpc; return TK_CAST_INT; }
-- 
2.43.0


From b575deb49081b790cdb5ab46a6295b1c00d92e87 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 116/139] fix: config: comment in the last line required a
 newline

---
 src/angel/angel_config_parser.rl | 2 +-
 src/main/config_parser.rl        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index e634100..c99abbc 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -292,7 +292,7 @@ GQuark li_angel_config_parser_error_quark(void) {
 		| '=>'   %{ return TK_ASSOCIATE; }
 		) (noise_char | operator_separator_char | alnum | '_' | '"' | "'")?;
 
-	endoffile = '' %{ fpc = NULL; return TK_EOF; };
+	endoffile = ( '#' (any - [\r\n])* )? %{ fpc = NULL; return TK_EOF; };
 
 	token :=
 		noise
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 3f2f795..6dce323 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -364,7 +364,7 @@ GQuark li_config_error_quark(void) {
 		| '=>'   %{ return TK_ASSOCIATE; }
 		) (noise_char | operator_separator_char | alnum | '_' | '"' | "'")?;
 
-	endoffile = '' %{ fpc = NULL; return TK_EOF; };
+	endoffile = ( '#' (any - [\r\n])* )? %{ fpc = NULL; return TK_EOF; };
 
 	token :=
 		noise
-- 
2.43.0


From f2331dad95783db95416309a7bff37811605d96a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:46:51 +0000
Subject: [PATCH 117/139] fix: config: crash in __print without parameters

---
 src/angel/angel_config_parser.rl | 2 +-
 src/main/config_parser.rl        | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index c99abbc..ba87059 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -624,7 +624,7 @@ static gboolean p_config_call(GString *name, liConfigTokenizerContext *ctx, GErr
 	if (!p_parameter_values(&parameters, ctx, error)) return FALSE;
 
 	if (g_str_equal(name->str, "__print")) {
-		GString *s = li_value_to_string(parameters);
+		GString *s = (NULL != parameters) ? li_value_to_string(parameters) : g_string_new("()");
 		DEBUG(ctx->srv, "config __print: %s", s->str);
 		g_string_free(s, TRUE);
 		li_value_free(parameters);
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 6dce323..7863037 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -1021,7 +1021,7 @@ static gboolean p_setup(GString *name, liConfigTokenizerContext *ctx, GError **e
 	if (!p_parameter_values(&parameters, ctx, error)) return FALSE;
 
 	if (g_str_equal(name->str, "__print")) {
-		GString *s = li_value_to_string(parameters);
+		GString *s = (NULL != parameters) ? li_value_to_string(parameters) : g_string_new("()");
 		DEBUG(ctx->srv, "config __print: %s", s->str);
 		g_string_free(s, TRUE);
 		li_value_free(parameters);
@@ -1094,7 +1094,7 @@ error:
 	if (!p_parameter_values(&parameters, ctx, error)) return FALSE;
 
 	if (g_str_equal(name->str, "__print")) {
-		GString *s = li_value_to_string(parameters);
+		GString *s = (NULL != parameters) ? li_value_to_string(parameters) : g_string_new("()");
 		DEBUG(ctx->srv, "config __print: %s", s->str);
 		g_string_free(s, TRUE);
 		li_value_free(parameters);
-- 
2.43.0


From a51f487ff725000d825a5d1c571c23aa5b6d6976 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 118/139] fix: config: operators directly followed by '-' or
 '!' were rejected

---
 src/angel/angel_config_parser.rl | 2 +-
 src/main/config_parser.rl        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_config_parser.rl b/src/angel/angel_config_parser.rl
index ba87059..ceb569a 100644
--- a/src/angel/angel_config_parser.rl
+++ b/src/angel/angel_config_parser.rl
@@ -290,7 +290,7 @@ GQuark li_angel_config_parser_error_quark(void) {
 		| '!'    %{ return TK_NOT; }
 		| '='    %{ return TK_ASSIGN; }
 		| '=>'   %{ return TK_ASSOCIATE; }
-		) (noise_char | operator_separator_char | alnum | '_' | '"' | "'")?;
+		) (noise_char | operator_separator_char | alnum | [_!\-] | '"' | "'")?;
 
 	endoffile = ( '#' (any - [\r\n])* )? %{ fpc = NULL; return TK_EOF; };
 
diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index 7863037..c2edefa 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -362,7 +362,7 @@ GQuark li_config_error_quark(void) {
 		| '!/'   %{ return TK_NOT_SUBNET; }
 		| '='    %{ return TK_ASSIGN; }
 		| '=>'   %{ return TK_ASSOCIATE; }
-		) (noise_char | operator_separator_char | alnum | '_' | '"' | "'")?;
+		) (noise_char | operator_separator_char | alnum | [_!\-] | '"' | "'")?;
 
 	endoffile = ( '#' (any - [\r\n])* )? %{ fpc = NULL; return TK_EOF; };
 
-- 
2.43.0


From b36d83ba5b213cdc8e2e187f79b327d158c51450 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:47:27 +0000
Subject: [PATCH 119/139] fix: config: crash on files including themselves

---
 src/main/config_parser.rl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main/config_parser.rl b/src/main/config_parser.rl
index c2edefa..adf0f23 100644
--- a/src/main/config_parser.rl
+++ b/src/main/config_parser.rl
@@ -9,6 +9,9 @@
 
 #define KV_LISTING_MAX 100
 
+/* limit nesting of include and include_shell: files including themselves would recurse endless */
+#define INCLUDE_DEPTH_MAX 64
+
 typedef enum {
 	TK_ERROR,
 	TK_EOF,
@@ -74,6 +77,7 @@ struct liConfigTokenizerContext {
 	liServer *srv;
 	liWorker *wrk;
 	gboolean master_config; /* whether includes/changing global vars are allowed */
+	guint include_depth;
 
 	/* ragel vars */
 	int cs;
@@ -827,11 +831,16 @@ static gboolean include_file(liAction *list, GString *filename, liConfigTokenize
 	liConfigTokenizerContext subctx;
 	gboolean result;
 
+	if (ctx->include_depth >= INCLUDE_DEPTH_MAX) {
+		return parse_error(ctx, error, "includes are nested too deep");
+	}
+
 	if (!tokenizer_init_file(ctx->srv, ctx->wrk, &subctx, filename->str, error)) {
 		return FALSE;
 	}
 
 	subctx.master_config = ctx->master_config;
+	subctx.include_depth = ctx->include_depth + 1;
 
 	scope_enter(&subctx);
 	subctx.current_scope->parent = ctx->current_scope;
@@ -977,6 +986,11 @@ static gboolean p_include_shell(liAction *list, liConfigTokenizerContext *ctx, G
 		goto error;
 	}
 
+	if (ctx->include_depth >= INCLUDE_DEPTH_MAX) {
+		parse_error(ctx, error, "includes are nested too deep");
+		goto error;
+	}
+
 	{
 		gint status;
 		GError *err = NULL;
@@ -998,6 +1012,7 @@ static gboolean p_include_shell(liAction *list, liConfigTokenizerContext *ctx, G
 	tokenizer_init(ctx->srv, ctx->wrk, &subctx, command->str, cmd_stdout, strlen(cmd_stdout));
 
 	subctx.master_config = ctx->master_config;
+	subctx.include_depth = ctx->include_depth + 1;
 
 	scope_enter(&subctx);
 	subctx.current_scope->parent = ctx->current_scope;
-- 
2.43.0


From 941328dad9357ded052a5343ac8b29b0aa807907 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:31:24 +0000
Subject: [PATCH 120/139] fix: lua: scripts failing to load corrupted the lua
 state and kept it locked

---
 src/main/config_lua.c | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/main/config_lua.c b/src/main/config_lua.c
index bf34252..d074727 100644
--- a/src/main/config_lua.c
+++ b/src/main/config_lua.c
@@ -166,7 +166,7 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 
 	if (0 != luaL_loadfile(L, filename)) {
 		_ERROR(srv, wrk, NULL, "Loading script '%s' failed: %s", filename, lua_tostring(L, -1));
-		return FALSE;
+		goto failed;
 	}
 
 	_DEBUG(srv, wrk, NULL, "Loaded config script '%s'", filename);
@@ -186,18 +186,7 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 	errfunc = li_lua_push_traceback(L, 2); /* +1, but before args */
 	if (lua_pcall(L, 2, 0, errfunc)) { /* -3 (func + args), 0 results (but 1 error) */
 		_ERROR(srv, wrk, NULL, "lua_pcall(): %s", lua_tostring(L, -1));
-
-		/* cleanup stack */
-		if (lua_stack_top > lua_gettop(L)) {
-			lua_pop(L, lua_gettop(L) - lua_stack_top);
-		}
-
-		li_lua_environment_restore(LL); /* -1 */
-		li_lua_environment_restore_globals(L); /* -1 */
-
-		li_lua_unlock(LL);
-
-		return FALSE;
+		goto failed;
 	}
 	lua_remove(L, errfunc);
 
@@ -215,4 +204,14 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 	li_lua_unlock(LL);
 
 	return TRUE;
+
+failed:
+	lua_settop(L, lua_stack_top); /* cleanup stack */
+
+	li_lua_environment_restore(LL); /* -1 */
+	li_lua_environment_restore_globals(L); /* -1 */
+
+	li_lua_unlock(LL);
+
+	return FALSE;
 }
-- 
2.43.0


From 7ff026a8b470a6ad595f8f541065a55591bec0e5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:31:24 +0000
Subject: [PATCH 121/139] fix: lua: crash when methods of requests and
 chunkqueues were called without the object

---
 src/main/chunk_lua.c          |  3 +++
 src/main/virtualrequest_lua.c | 21 ++++++++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index e9b6379..9c73c12 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -219,6 +219,7 @@ static int lua_chunkqueue_reset(lua_State *L) {
 	liChunkQueue *cq;
 
 	cq = li_lua_get_chunkqueue(L, 1);
+	luaL_argcheck(L, NULL != cq, 1, "expected chunkqueue");
 	li_chunkqueue_reset(cq);
 
 	return 0;
@@ -229,6 +230,7 @@ static int lua_chunkqueue_steal_all(lua_State *L) {
 
 	cq = li_lua_get_chunkqueue(L, 1);
 	cq_from = li_lua_get_chunkqueue(L, 2);
+	luaL_argcheck(L, NULL != cq, 1, "expected chunkqueue");
 	if (!cq_from) {
 		lua_pushliteral(L, "Expected source chunkqueue to steal from");
 		return lua_error(L);
@@ -243,6 +245,7 @@ static int lua_chunkqueue_skip_all(lua_State *L) {
 	liChunkQueue *cq;
 
 	cq = li_lua_get_chunkqueue(L, 1);
+	luaL_argcheck(L, NULL != cq, 1, "expected chunkqueue");
 	li_chunkqueue_skip_all(cq);
 
 	return 0;
diff --git a/src/main/virtualrequest_lua.c b/src/main/virtualrequest_lua.c
index 8b860ea..5349587 100644
--- a/src/main/virtualrequest_lua.c
+++ b/src/main/virtualrequest_lua.c
@@ -147,10 +147,17 @@ static int lua_vrequest_newindex(lua_State *L) {
 	return 0;
 }
 
+/* raises a lua error for anything that isn't a vrequest */
+static liVRequest* li_lua_check_vrequest(lua_State *L, int ndx) {
+	liVRequest *vr = li_lua_get_vrequest(L, ndx);
+	luaL_argcheck(L, NULL != vr, ndx, "expected virtual request");
+	return vr;
+}
+
 static int lua_vrequest_error(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = li_lua_check_vrequest(L, 1);
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -164,7 +171,7 @@ static int lua_vrequest_error(lua_State *L) {
 static int lua_vrequest_warning(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = li_lua_check_vrequest(L, 1);
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -178,7 +185,7 @@ static int lua_vrequest_warning(lua_State *L) {
 static int lua_vrequest_info(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = li_lua_check_vrequest(L, 1);
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -192,7 +199,7 @@ static int lua_vrequest_info(lua_State *L) {
 static int lua_vrequest_debug(lua_State *L) {
 	liVRequest *vr;
 	GString *buf;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = li_lua_check_vrequest(L, 1);
 
 	buf = li_lua_print_get_string(L, 2, lua_gettop(L));
 
@@ -260,7 +267,7 @@ static int lua_vrequest_stat(lua_State *L) {
 
 static int lua_vrequest_handle_direct(lua_State *L) {
 	liVRequest *vr;
-	vr = li_lua_get_vrequest(L, 1);
+	vr = li_lua_check_vrequest(L, 1);
 
 	lua_pushboolean(L, li_vrequest_handle_direct(vr));
 
@@ -296,7 +303,7 @@ static int lua_vrequest_add_filter_in(lua_State *L) {
 		lua_error(L);
 	}
 
-	vr = li_lua_get_vrequest(L, 1);
+	vr = li_lua_check_vrequest(L, 1);
 
 	return li_lua_push_filter(L, li_lua_vrequest_add_filter_in(L, vr, 2));
 }
@@ -309,7 +316,7 @@ static int lua_vrequest_add_filter_out(lua_State *L) {
 		lua_error(L);
 	}
 
-	vr = li_lua_get_vrequest(L, 1);
+	vr = li_lua_check_vrequest(L, 1);
 
 	return li_lua_push_filter(L, li_lua_vrequest_add_filter_out(L, vr, 2));
 }
-- 
2.43.0


From 0d7aee19a02e1854df8c694a24d1eb2a9cb1da41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:31:24 +0000
Subject: [PATCH 122/139] fix: lua: add_file ignored the length, used the wrong
 default length and leaked file descriptors on errors

---
 src/main/chunk_lua.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index 9c73c12..40c3ec2 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -164,38 +164,34 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 		return -1;
 	}
 
-	start = 0;
-	length = st.st_size;
+	if (!S_ISREG(st.st_mode)) {
+		close(fd);
+		return luaL_error(L, "chunkqueue:add: not a regular file: %s", filename);
+	}
 
+	start = 0;
 	if (lua_gettop(L) >= 3) {
 		if (!lua_isnumber(L, 3)) {
-			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as second parameter");
-			lua_error(L);
-
 			close(fd);
-			return -1;
+			return luaL_error(L, "chunkqueue:add expects number (or nothing) as second parameter");
 		}
 
 		start = lua_tonumber(L, 3);
 	}
+
+	length = st.st_size - start;
 	if (lua_gettop(L) >= 4) {
 		if (!lua_isnumber(L, 4)) {
-			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as third parameter");
-			lua_error(L);
-
 			close(fd);
-			return -1;
+			return luaL_error(L, "chunkqueue:add expects number (or nothing) as third parameter");
 		}
 
-		length = lua_tonumber(L, 3);
+		length = lua_tonumber(L, 4);
 	}
 
-	if (start < 0 || start >= st.st_size || length < 0 || start + length > st.st_size) {
-		lua_pushliteral(L, "chunkqueue:add: Invalid start/length values");
-		lua_error(L);
-
+	if (start < 0 || start > st.st_size || length < 0 || length > st.st_size - start) {
 		close(fd);
-		return -1;
+		return luaL_error(L, "chunkqueue:add: Invalid start/length values");
 	}
 
 	if (tempfile) {
-- 
2.43.0


From 0b169ea92061b7a35c96d046669e792adb6c438b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:32:23 +0000
Subject: [PATCH 123/139] fix: lua: documented chunkqueue:add({filename=...})
 was not supported

---
 src/main/chunk_lua.c | 52 +++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index 40c3ec2..3c6c94b 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -112,28 +112,6 @@ static int lua_chunkqueue_newindex(lua_State *L) {
 	return 0;
 }
 
-static int lua_chunkqueue_add(lua_State *L) {
-	liChunkQueue *cq;
-	const char *s;
-	size_t len;
-
-	luaL_checkany(L, 2);
-	cq = li_lua_get_chunkqueue(L, 1);
-	if (cq == NULL) return 0;
-
-	if (!lua_isstring(L, 2)) {
-		lua_pushliteral(L, "chunkqueue add expects simple string");
-		lua_error(L);
-
-		return -1;
-	}
-
-	s = lua_tolstring(L, 2, &len);
-	li_chunkqueue_append_mem(cq, s, len);
-
-	return 0;
-}
-
 static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 	liChunkQueue *cq;
 	const char *filename;
@@ -203,6 +181,36 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 	return 0;
 }
 
+static int lua_chunkqueue_add(lua_State *L) {
+	liChunkQueue *cq;
+	const char *s;
+	size_t len;
+
+	luaL_checkany(L, 2);
+	cq = li_lua_get_chunkqueue(L, 1);
+	if (cq == NULL) return 0;
+
+	if (lua_istable(L, 2)) {
+		/* { filename = "..." } */
+		lua_settop(L, 2);
+		lua_getfield(L, 2, "filename");
+		lua_replace(L, 2);
+		return _lua_chunkqueue_add_file(L, FALSE);
+	}
+
+	if (!lua_isstring(L, 2)) {
+		lua_pushliteral(L, "chunkqueue add expects simple string or table with filename");
+		lua_error(L);
+
+		return -1;
+	}
+
+	s = lua_tolstring(L, 2, &len);
+	li_chunkqueue_append_mem(cq, s, len);
+
+	return 0;
+}
+
 static int lua_chunkqueue_add_file(lua_State *L) {
 	return _lua_chunkqueue_add_file(L, FALSE);
 }
-- 
2.43.0


From 950e2147131802a946c068643c3c6ebf59eb6cbc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:32:23 +0000
Subject: [PATCH 124/139] fix: lua: filter without valid object terminated the
 server

---
 src/main/core_lua.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/main/core_lua.c b/src/main/core_lua.c
index e49f48e..36a4b68 100644
--- a/src/main/core_lua.c
+++ b/src/main/core_lua.c
@@ -53,11 +53,24 @@ int li_lua_push_traceback(lua_State *L, int nargs) {
 	return base;
 }
 
+/* stack: object, method name; replaces them with object[method name]. might raise errors, so only use in protected calls */
+static int lookup_method(lua_State *L) {
+	lua_gettable(L, 1);
+	return 1;
+}
+
 gboolean li_lua_call_object(liServer *srv, liVRequest *vr, lua_State *L, const char* method, int nargs, int nresults, gboolean optional) {
 	int errfunc;
 	gboolean result;
 
-	lua_getfield(L, -nargs, method); /* +1 "function" */
+	lua_pushcfunction(L, lookup_method); /* +1 */
+	lua_pushvalue(L, -nargs - 1); /* +1 object */
+	lua_pushstring(L, method); /* +1 */
+	if (lua_pcall(L, 2, 1, 0)) { /* -3, +1 "function" (result / error) */
+		_VR_ERROR(srv, vr, "li_lua_call_object: lookup of method '%s' failed: %s", method, lua_tostring(L, -1));
+		lua_pop(L, 1 + nargs);
+		return FALSE;
+	}
 
 	if (!lua_isfunction(L, -1)) {
 		if (!optional) {
-- 
2.43.0


From b0bfb8fc3527ca4aa085dc450e6e1795b909845b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:32:23 +0000
Subject: [PATCH 125/139] fix: lua: filters added with vr:add_filter_in/out ran
 without environment

---
 src/main/filters_lua.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/filters_lua.c b/src/main/filters_lua.c
index e6a0272..5a9e4c3 100644
--- a/src/main/filters_lua.c
+++ b/src/main/filters_lua.c
@@ -361,6 +361,7 @@ liFilter* li_lua_vrequest_add_filter_in(lua_State *L, liVRequest *vr, int state_
 	state = g_slice_new0(filter_lua_state);
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	state->env_ref = li_lua_environment_create(LL, vr);
 
 	return li_vrequest_add_filter_in(vr, filter_lua_handle, filter_lua_free, NULL, state);
 }
@@ -374,6 +375,7 @@ liFilter* li_lua_vrequest_add_filter_out(lua_State *L, liVRequest *vr, int state
 	state = g_slice_new0(filter_lua_state);
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	state->env_ref = li_lua_environment_create(LL, vr);
 
 	return li_vrequest_add_filter_out(vr, filter_lua_handle, filter_lua_free, NULL, state);
 }
-- 
2.43.0


From c8743b2eec04407e16167b55cfbc6a15214ed39b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:32:23 +0000
Subject: [PATCH 126/139] fix: lua: conditions could not use :gt, :ge, :lt and
 :le

---
 src/main/condition_lua.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/main/condition_lua.c b/src/main/condition_lua.c
index 41a2255..866bdd2 100644
--- a/src/main/condition_lua.c
+++ b/src/main/condition_lua.c
@@ -192,8 +192,19 @@ static int lua_cond_lvalue_cmp(lua_State *L) {
 	srv = (liServer*) lua_touserdata(L, lua_upvalueindex(1));
 	cmpop = (liCompOperator) lua_tointeger(L, lua_upvalueindex(2));
 
-	if (NULL == (sval = li_lua_togstring(L, 2))) return 0;
-	c = li_condition_new_string(srv, cmpop, lvalue, sval);
+	switch (cmpop) {
+	case LI_CONFIG_COND_GT:
+	case LI_CONFIG_COND_GE:
+	case LI_CONFIG_COND_LT:
+	case LI_CONFIG_COND_LE:
+		/* only defined for integers */
+		c = li_condition_new_int(srv, cmpop, lvalue, luaL_checkinteger(L, 2));
+		break;
+	default:
+		if (NULL == (sval = li_lua_togstring(L, 2))) return 0;
+		c = li_condition_new_string(srv, cmpop, lvalue, sval);
+		break;
+	}
 	if (c) {
 		li_condition_lvalue_acquire(lvalue);
 		li_lua_push_condition(srv, L, c);
-- 
2.43.0


From a06a04b90eebeb4663b8b689b1e74bef9ca5605e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 127/139] fix: lua: use after free when modifying headers or
 environment while looping over them

---
 include/lighttpd/core_lua.h |  2 +
 src/main/core_lua.c         | 43 +++++++++++++------
 src/main/http_headers_lua.c | 84 ++++++++++---------------------------
 3 files changed, 53 insertions(+), 76 deletions(-)

diff --git a/include/lighttpd/core_lua.h b/include/lighttpd/core_lua.h
index 9b6cd16..daf3012 100644
--- a/include/lighttpd/core_lua.h
+++ b/include/lighttpd/core_lua.h
@@ -159,6 +159,8 @@ LI_API GString* li_lua_print_get_string(lua_State *L, int from, int to);
  * The returned "next" function has an internal state, it ignores the table/state and previous key parameter.
  * returns: <next>, nil, nil on the stack (and 3 as c function)
  */
+/* pops table { key1, value1, key2, value2, ... }, pushes function iterating over it */
+LI_API int li_lua_push_table_pairs(lua_State *L);
 LI_API int li_lua_ghashtable_gstring_pairs(lua_State *L, GHashTable *ht);
 
 /* internal: subrequests (vrequest metamethod) */
diff --git a/src/main/core_lua.c b/src/main/core_lua.c
index 36a4b68..31227fb 100644
--- a/src/main/core_lua.c
+++ b/src/main/core_lua.c
@@ -565,25 +565,42 @@ void li_lua_init2(liLuaState *LL, liServer *srv, liWorker *wrk) {
 	li_plugins_init_lua(LL, srv, wrk);
 }
 
-static int ghashtable_gstring_next(lua_State *L) {
-	GHashTableIter *it = lua_touserdata(L, lua_upvalueindex(1));
-	gpointer pkey = NULL, pvalue = NULL;
+static int table_pairs_next(lua_State *L) {
+	lua_Integer ndx = lua_tointeger(L, lua_upvalueindex(2));
 
 	/* ignore arguments */
-	if (g_hash_table_iter_next(it, &pkey, &pvalue)) {
-		GString *key = pkey, *value = pvalue;
-		lua_pushlstring(L, key->str, key->len);
-		lua_pushlstring(L, value->str, value->len);
-		return 2;
-	}
-	lua_pushnil(L);
+	lua_rawgeti(L, lua_upvalueindex(1), ndx); /* +1 */
+	if (lua_isnil(L, -1)) return 1;
+	lua_rawgeti(L, lua_upvalueindex(1), ndx + 1); /* +1 */
+
+	lua_pushinteger(L, ndx + 2); /* +1 */
+	lua_replace(L, lua_upvalueindex(2)); /* -1 */
+	return 2;
+}
+
+int li_lua_push_table_pairs(lua_State *L) {
+	lua_pushinteger(L, 1); /* +1 */
+	lua_pushcclosure(L, table_pairs_next, 2); /* -2, +1 */
 	return 1;
 }
 
 int li_lua_ghashtable_gstring_pairs(lua_State *L, GHashTable *ht) {
-	GHashTableIter *it = lua_newuserdata(L, sizeof(GHashTableIter)); /* +1 */
-	g_hash_table_iter_init(it, ht);
-	lua_pushcclosure(L, ghashtable_gstring_next, 1);   /* -1, +1 */
+	GHashTableIter it;
+	gpointer pkey = NULL, pvalue = NULL;
+	int n = 0;
+
+	/* the loop body might modify the hash table, so loop over a copy */
+	lua_newtable(L); /* +1 */
+	g_hash_table_iter_init(&it, ht);
+	while (g_hash_table_iter_next(&it, &pkey, &pvalue)) {
+		GString *key = pkey, *value = pvalue;
+		lua_pushlstring(L, key->str, key->len); /* +1 */
+		lua_rawseti(L, -2, ++n); /* -1 */
+		lua_pushlstring(L, value->str, value->len); /* +1 */
+		lua_rawseti(L, -2, ++n); /* -1 */
+	}
+
+	li_lua_push_table_pairs(L);                        /* -1, +1 */
 	lua_pushnil(L); lua_pushnil(L);                    /* +2 */
 	return 3;
 }
diff --git a/src/main/http_headers_lua.c b/src/main/http_headers_lua.c
index b288fa6..ac660b3 100644
--- a/src/main/http_headers_lua.c
+++ b/src/main/http_headers_lua.c
@@ -104,82 +104,40 @@ static int lua_http_headers_clear(lua_State *L) {
 	return 0;
 }
 
-static int lua_http_headers_next(lua_State *L) {
-	liHttpHeader *h;
-	liHttpHeaders *headers = lua_touserdata(L, lua_upvalueindex(1));
-	GList *l = lua_touserdata(L, lua_upvalueindex(2));
-	const char *ckey;
-	size_t keylen;
-	ckey = lua_tolstring(L, lua_upvalueindex(3), &keylen);
-
-	if (!headers && !l) goto endoflist;
-
-	if (headers) {
-		lua_pushnil(L);
-		lua_replace(L, lua_upvalueindex(1));
-		if (ckey) {
-			l = li_http_header_find_first(headers, ckey, keylen);
-		} else {
-			l = headers->entries.head;
-		}
-	} else {
-		if (ckey) {
-			l = li_http_header_find_next(l, ckey, keylen);
-		} else {
-			l = g_list_next(l);
-		}
-	}
-
-	if (!l) goto endoflist;
-
-	h = l->data;
-	lua_pushlstring(L, h->data->str, h->keylen);
-	if (h->data->len > h->keylen + 2) {
-		lua_pushlstring(L, h->data->str + (h->keylen + 2), h->data->len - (h->keylen + 2));
-	} else {
-		lua_pushliteral(L, "");
-	}
-
-	lua_pushlightuserdata(L, l);
-	lua_replace(L, lua_upvalueindex(2));
-
-	return 2;
-
-endoflist:
-	lua_pushnil(L);
-	lua_replace(L, lua_upvalueindex(1));
-	lua_pushnil(L);
-	lua_replace(L, lua_upvalueindex(2));
-	lua_pushnil(L);
-	lua_replace(L, lua_upvalueindex(3));
-	lua_pushnil(L);
-	return 1;
-}
-
 static int lua_http_headers_pairs(lua_State *L) {
 	liHttpHeaders *headers;
-	gboolean haskey = FALSE;
+	const char *ckey = NULL;
+	size_t keylen = 0;
+	GList *l;
+	int n = 0;
 
 	luaL_checkany(L, 1);
 	headers = li_lua_get_http_headers(L, 1);
 
 	if (lua_gettop(L) == 2) {
-		luaL_checkstring(L, 2);
-		haskey = TRUE;
+		ckey = luaL_checklstring(L, 2, &keylen);
 	}
 
 	if (!headers) return 0;
 
-	lua_pushlightuserdata(L, headers);
-	lua_pushlightuserdata(L, NULL);
-	if (haskey) {
-		lua_pushvalue(L, 2);
-	} else {
-		lua_pushnil(L);
+	/* the loop body might modify the headers, so loop over a copy */
+	lua_newtable(L); /* +1 */
+	for (l = (NULL != ckey) ? li_http_header_find_first(headers, ckey, keylen) : headers->entries.head;
+			NULL != l;
+			l = (NULL != ckey) ? li_http_header_find_next(l, ckey, keylen) : g_list_next(l)) {
+		liHttpHeader *h = l->data;
+
+		lua_pushlstring(L, h->data->str, h->keylen); /* +1 */
+		lua_rawseti(L, -2, ++n); /* -1 */
+		if (h->data->len > h->keylen + 2) { /* +1 */
+			lua_pushlstring(L, h->data->str + (h->keylen + 2), h->data->len - (h->keylen + 2));
+		} else {
+			lua_pushliteral(L, "");
+		}
+		lua_rawseti(L, -2, ++n); /* -1 */
 	}
-	lua_pushcclosure(L, lua_http_headers_next, 3);
 
-	return 1;
+	return li_lua_push_table_pairs(L); /* -1, +1 */
 }
 
 static const luaL_Reg http_headers_mt[] = {
-- 
2.43.0


From baf8d56fff8aa151986d0b5c3a4beb6c3cee3050 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:33:03 +0000
Subject: [PATCH 128/139] fix: contrib: core.xsendfile failed whenever a
 required docroot was given

---
 contrib/core__xsendfile.lua | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contrib/core__xsendfile.lua b/contrib/core__xsendfile.lua
index fc4c62b..c13d4a4 100644
--- a/contrib/core__xsendfile.lua
+++ b/contrib/core__xsendfile.lua
@@ -55,8 +55,8 @@ local function handle_x_sendfile(vr)
 	local xs = vr.resp.headers["X-Sendfile"]
 	if xs and xs ~= "" then
 		xs = lighty.path_simplify(xs)
-		if docroot and xs:sub(docroot.len()) ~= docroot then
-			vr:error("x-sendfile: File '".. xs .. "'not in required docroot '" .. docroot .. "'")
+		if docroot and xs:sub(1, docroot:len()) ~= docroot then
+			vr:print("x-sendfile: File '".. xs .. "'not in required docroot '" .. docroot .. "'")
 			return lighty.HANDLER_GO_ON
 		end
 
-- 
2.43.0


From ce43078e69ea41f4513b70ba5f6b9f8086a2bd8b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:34:06 +0000
Subject: [PATCH 129/139] fix: contrib: auth.require_user matched other users
 for names containing special characters

---
 contrib/core.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contrib/core.lua b/contrib/core.lua
index 2ff904b..5085928 100644
--- a/contrib/core.lua
+++ b/contrib/core.lua
@@ -80,7 +80,7 @@ local function auth_require_user(...)
 	else
 		local escapedusers = {}
 		for i, u in ipairs(users) do
-			escapedusers[i] = u:gsub("[]|+*[\\^$-]", "\\%0")
+			escapedusers[i] = u:gsub("[]|+*[\\^$.?(){}-]", "\\%0")
 		end
 		local regex = "^(" .. table.concat(escapedusers, "|") .. ")$"
 -- 		lighty.debug("auth_require_user REMOTE_USER regex: " .. regex)
-- 
2.43.0


From a63521160f88c2dc4e71fc76d69879cede7d93ec Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:39:42 +0000
Subject: [PATCH 130/139] fix: lua: errors in filters running without a request
 crashed the server

The filter callbacks can run after the request is gone (the final
"finished" call); logging an error then used a NULL server and a log
context at a bogus address.
---
 include/lighttpd/log.h | 16 ++++++++--------
 src/main/filters_lua.c | 10 +++++++---
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/lighttpd/log.h b/include/lighttpd/log.h
index ef878fa..1b50b03 100644
--- a/include/lighttpd/log.h
+++ b/include/lighttpd/log.h
@@ -54,14 +54,14 @@
 #define VR_GERROR(vr, error, fmt, ...) _GERROR(vr->wrk->srv, vr->wrk, &vr->log_context, error, fmt, __VA_ARGS__)
 
 /* vr may be NULL; if vr is NULL, srv must NOT be NULL */
-#define _VR_SEGFAULT(srv, vr, fmt, ...) _SEGFAULT(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_ERROR(srv, vr, fmt, ...)    _ERROR(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_WARNING(srv, vr, fmt, ...)  _WARNING(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_INFO(srv, vr, fmt, ...)     _INFO(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_DEBUG(srv, vr, fmt, ...)    _DEBUG(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_BACKEND(srv, vr, fmt, ...)  _BACKEND(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, fmt, __VA_ARGS__)
-#define _VR_BACKEND_LINES(srv, vr, txt, fmt, ...) _BACKEND_LINES(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, txt, fmt, __VA_ARGS__)
-#define _VR_GERROR(srv, vr, error, fmt, ...) _GERROR(srv, NULL != vr ? vr->wrk : NULL, &vr->log_context, error, fmt, __VA_ARGS__)
+#define _VR_SEGFAULT(srv, vr, fmt, ...) _SEGFAULT(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_ERROR(srv, vr, fmt, ...)    _ERROR(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_WARNING(srv, vr, fmt, ...)  _WARNING(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_INFO(srv, vr, fmt, ...)     _INFO(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_DEBUG(srv, vr, fmt, ...)    _DEBUG(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_BACKEND(srv, vr, fmt, ...)  _BACKEND(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, fmt, __VA_ARGS__)
+#define _VR_BACKEND_LINES(srv, vr, txt, fmt, ...) _BACKEND_LINES(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, txt, fmt, __VA_ARGS__)
+#define _VR_GERROR(srv, vr, error, fmt, ...) _GERROR(srv, NULL != vr ? vr->wrk : NULL, NULL != vr ? &vr->log_context : NULL, error, fmt, __VA_ARGS__)
 
 #define SEGFAULT(srv, fmt, ...)   _SEGFAULT(srv, NULL, NULL, fmt, __VA_ARGS__)
 #define ERROR(srv, fmt, ...)      _ERROR(srv, NULL, NULL, fmt, __VA_ARGS__)
diff --git a/src/main/filters_lua.c b/src/main/filters_lua.c
index 5a9e4c3..e91f07b 100644
--- a/src/main/filters_lua.c
+++ b/src/main/filters_lua.c
@@ -161,6 +161,7 @@ struct filter_lua_config {
 
 typedef struct filter_lua_state filter_lua_state;
 struct filter_lua_state {
+	liServer *srv;
 	liLuaState *LL;
 	int env_ref;
 	int object_ref;
@@ -200,6 +201,7 @@ static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config
 
 	if (LUA_NOREF != object_ref) {
 		filter_lua_state *state = g_slice_new0(filter_lua_state);
+		state->srv = srv;
 		state->LL = config->LL;
 		state->object_ref = object_ref;
 		state->env_ref = env_ref;
@@ -211,7 +213,7 @@ static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config
 }
 
 static void filter_lua_state_free(liVRequest *vr, filter_lua_state *state) {
-	liServer *srv = NULL != vr ? vr->wrk->srv : NULL;
+	liServer *srv = state->srv; /* the vrequest might be gone already */
 	lua_State *L = state->LL->L;
 
 	li_lua_lock(state->LL);
@@ -237,8 +239,8 @@ static void filter_lua_free(liVRequest *vr, liFilter *f) {
 }
 
 static liHandlerResult filter_lua_handle(liVRequest *vr, liFilter *f) {
-	liServer *srv = NULL != vr ? vr->wrk->srv : NULL;
 	filter_lua_state *state = (filter_lua_state*) f->param;
+	liServer *srv = state->srv; /* the vrequest might be gone already */
 	lua_State *L = state->LL->L;
 	liHandlerResult res;
 
@@ -261,7 +263,7 @@ static liHandlerResult filter_lua_handle(liVRequest *vr, liFilter *f) {
 				res = rc;
 				break;
 			default:
-				VR_ERROR(vr, "lua filter returned an error or an unknown value (%i)", rc);
+				_VR_ERROR(srv, vr, "lua filter returned an error or an unknown value (%i)", rc);
 				res = LI_HANDLER_ERROR;
 			}
 		}
@@ -359,6 +361,7 @@ liFilter* li_lua_vrequest_add_filter_in(lua_State *L, liVRequest *vr, int state_
 	lua_pushvalue(L, state_ndx);
 
 	state = g_slice_new0(filter_lua_state);
+	state->srv = vr->wrk->srv;
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
 	state->env_ref = li_lua_environment_create(LL, vr);
@@ -373,6 +376,7 @@ liFilter* li_lua_vrequest_add_filter_out(lua_State *L, liVRequest *vr, int state
 	lua_pushvalue(L, state_ndx);
 
 	state = g_slice_new0(filter_lua_state);
+	state->srv = vr->wrk->srv;
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
 	state->env_ref = li_lua_environment_create(LL, vr);
-- 
2.43.0


From 309e3fe254245f301f8fd3962df635f7bf4dedd1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:43:02 +0000
Subject: [PATCH 131/139] fix: failing filters used the request after it was
 reset

A filter can get called from within li_stream_connect; calling
li_vrequest_error directly resets the request (and frees the filters)
while li_vrequest_state_machine or an action is still using it. Same for
lua filters failing in their constructor: let the action fail instead.
---
 include/lighttpd/filter.h |  2 ++
 src/main/filter.c         | 23 +++++++++++++++++++----
 src/main/filters_lua.c    | 20 ++++++++++++++------
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/include/lighttpd/filter.h b/include/lighttpd/filter.h
index 9b0fc3e..eadfbdd 100644
--- a/include/lighttpd/filter.h
+++ b/include/lighttpd/filter.h
@@ -25,6 +25,8 @@ struct liFilter {
 
 	liVRequest *vr;
 	guint filter_ndx;
+
+	liJob error_job;
 };
 
 LI_API liFilter* li_filter_new(liVRequest *vr, liFilterHandlerCB handle_data, liFilterFreeCB handle_free, liFilterEventCB handle_event, gpointer param);
diff --git a/src/main/filter.c b/src/main/filter.c
index d1f52c8..145d8c0 100644
--- a/src/main/filter.c
+++ b/src/main/filter.c
@@ -44,10 +44,16 @@ static void filter_handle_data(liFilter *filter) {
 		case LI_HANDLER_WAIT_FOR_EVENT:
 			break;
 		case LI_HANDLER_ERROR:
-			filter->in = NULL;
-			if (NULL != filter->vr) li_vrequest_error(filter->vr);
-			li_stream_reset(&filter->stream);
-			break;
+			/* don't call the handler again */
+			filter->handle_data = NULL;
+			if (NULL != filter->vr) {
+				/* we might get called from within li_stream_connect; don't reset the vrequest before the caller is done with it */
+				li_job_later(&filter->vr->wrk->loop.jobqueue, &filter->error_job);
+			} else {
+				filter->in = NULL;
+				li_stream_reset(&filter->stream);
+			}
+			return;
 		}
 
 		if (NULL != filter->stream.source && (0 == filter->stream.source->out->length) && filter->stream.source->out->is_closed) {
@@ -60,6 +66,12 @@ static void filter_handle_data(liFilter *filter) {
 	}
 }
 
+static void filter_error_job_cb(liJob *job) {
+	liFilter *filter = LI_CONTAINER_OF(job, liFilter, error_job);
+
+	if (NULL != filter->vr) li_vrequest_error(filter->vr);
+}
+
 static void filter_stream_cb(liStream *stream, liStreamEvent event) {
 	liFilter *filter = LI_CONTAINER_OF(stream, liFilter, stream);
 
@@ -105,6 +117,7 @@ static void filter_stream_cb(liStream *stream, liStreamEvent event) {
 		}
 		break;
 	case LI_STREAM_DESTROY:
+		li_job_clear(&filter->error_job);
 		filter->out = NULL;
 		if (NULL != filter->handle_event) {
 			filter->handle_event(filter->vr, filter, event);
@@ -123,6 +136,7 @@ liFilter* li_filter_new(liVRequest* vr, liFilterHandlerCB handle_data, liFilterF
 	f = g_slice_new0(liFilter);
 	li_stream_init(&f->stream, &vr->wrk->loop, filter_stream_cb);
 	f->out = f->stream.out;
+	li_job_init(&f->error_job, filter_error_job_cb);
 
 	f->param = param;
 	f->handle_data = handle_data;
@@ -151,6 +165,7 @@ static void li_filter_stop(liFilter *filter) {
 	g_ptr_array_set_size(vr->filters, vr->filters->len - 1);
 
 	filter->vr = NULL;
+	li_job_stop(&filter->error_job);
 	li_stream_release(&filter->stream);
 }
 
diff --git a/src/main/filters_lua.c b/src/main/filters_lua.c
index e91f07b..28ea9f1 100644
--- a/src/main/filters_lua.c
+++ b/src/main/filters_lua.c
@@ -167,7 +167,9 @@ struct filter_lua_state {
 	int object_ref;
 };
 
-static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config *config) {
+/* returns FALSE on errors; *pstate is NULL if the filter isn't needed for this request */
+static gboolean filter_lua_state_new(liVRequest *vr, filter_lua_config *config, filter_lua_state **pstate) {
+	gboolean success = TRUE;
 	int object_ref = LUA_NOREF;
 	liServer *srv = vr->wrk->srv;
 	lua_State *L = config->LL->L;
@@ -188,7 +190,7 @@ static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config
 		}
 	} else {
 		VR_ERROR(vr, "%s", "li_lua_call_object failed");
-		li_vrequest_error(vr);
+		success = FALSE;
 	}
 
 	li_lua_environment_restore(config->LL); /* -1 */
@@ -206,10 +208,12 @@ static filter_lua_state* filter_lua_state_new(liVRequest *vr, filter_lua_config
 		state->object_ref = object_ref;
 		state->env_ref = env_ref;
 
-		return state;
+		*pstate = state;
 	} else {
-		return NULL;
+		*pstate = NULL;
 	}
+
+	return success;
 }
 
 static void filter_lua_state_free(liVRequest *vr, filter_lua_state *state) {
@@ -280,9 +284,11 @@ static liHandlerResult filter_lua_handle(liVRequest *vr, liFilter *f) {
 
 static liHandlerResult filter_lua_in(liVRequest *vr, gpointer param, gpointer *context) {
 	filter_lua_config *config = param;
-	filter_lua_state *state = filter_lua_state_new(vr, config);
+	filter_lua_state *state;
 	UNUSED(context);
 
+	if (!filter_lua_state_new(vr, config, &state)) return LI_HANDLER_ERROR;
+
 	if (state) {
 		li_vrequest_add_filter_in(vr, filter_lua_handle, filter_lua_free, NULL, state);
 	}
@@ -292,9 +298,11 @@ static liHandlerResult filter_lua_in(liVRequest *vr, gpointer param, gpointer *c
 
 static liHandlerResult filter_lua_out(liVRequest *vr, gpointer param, gpointer *context) {
 	filter_lua_config *config = param;
-	filter_lua_state *state = filter_lua_state_new(vr, config);
+	filter_lua_state *state;
 	UNUSED(context);
 
+	if (!filter_lua_state_new(vr, config, &state)) return LI_HANDLER_ERROR;
+
 	if (state) {
 		li_vrequest_add_filter_out(vr, filter_lua_handle, filter_lua_free, NULL, state);
 	}
-- 
2.43.0


From b04229a1304951f6a83018da89f268d5b7d1c9ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:45:31 +0000
Subject: [PATCH 132/139] fix: lua: every call leaked a stack slot; the server
 crashed after some thousand requests

li_lua_environment_restore didn't pop the saved metatable. Apart from
growing the stack until it overflows this also installed the wrong table
as globals after loading a script (print() and lighty.error() couldn't find
tostring).
---
 src/main/core_lua.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/core_lua.c b/src/main/core_lua.c
index 31227fb..15170e1 100644
--- a/src/main/core_lua.c
+++ b/src/main/core_lua.c
@@ -203,7 +203,7 @@ void li_lua_environment_restore(liLuaState *LL) /* -1 (expects previous metatabl
 	lua_rawgeti(L, LUA_REGISTRYINDEX, LL->li_env_ref); /* +1 */
 	lua_pushvalue(L, -2); /* +1 */
 	lua_setmetatable(L, -2); /* -1 restore prev mt for LI_ENV */
-	lua_pop(L, 1); /* -2 */
+	lua_pop(L, 2); /* -2 */
 }
 
 void li_lua_environment_use_globals(liLuaState *LL) /* +1 */ {
-- 
2.43.0


From bdfef3fb86e8432545abb858d64ecd4192055dbd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:58:52 +0000
Subject: [PATCH 133/139] fix: access the state wait flag of a worker
 atomically

The main thread sets it in li_server_state_wait while the workers look at
it in the io wait handling and when a connection ends.
---
 src/main/connection.c | 2 +-
 src/main/server.c     | 4 ++--
 src/main/worker.c     | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index eaceaa5..e4f9fbf 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -494,7 +494,7 @@ void li_connection_update_io_timeout(liConnection *con) {
 void li_connection_update_io_wait(liConnection *con) {
 	liWorker *wrk = con->wrk;
 	gboolean want_timeout = FALSE;
-	gboolean stopping = wrk->wait_for_stop_connections.active;
+	gboolean stopping = g_atomic_int_get(&wrk->wait_for_stop_connections.active);
 
 	switch (con->state) {
 	case LI_CON_STATE_DEAD:
diff --git a/src/main/server.c b/src/main/server.c
index a7133d1..4bb8b1c 100644
--- a/src/main/server.c
+++ b/src/main/server.c
@@ -873,7 +873,7 @@ void li_server_state_ready(liServer *srv, liServerStateWait *sw) {
 
 	if (sw->active) {
 		g_queue_unlink(&srv->state_wait_queue, &sw->queue_link);
-		sw->active = FALSE;
+		g_atomic_int_set(&sw->active, FALSE);
 
 		if (srv->state_wait_queue.length == 0) {
 			li_event_async_send(&srv->state_ready_watcher);
@@ -889,7 +889,7 @@ void li_server_state_wait(liServer *srv, liServerStateWait *sw) {
 
 	sw->queue_link.data = sw;
 	g_queue_push_tail_link(&srv->state_wait_queue, &sw->queue_link);
-	sw->active = TRUE;
+	g_atomic_int_set(&sw->active, TRUE);
 
 	g_mutex_unlock(srv->statelock);
 }
diff --git a/src/main/worker.c b/src/main/worker.c
index bce66aa..81379c3 100644
--- a/src/main/worker.c
+++ b/src/main/worker.c
@@ -491,7 +491,7 @@ void li_worker_stopping(liWorker *context, liWorker *wrk) {
 
 		li_event_loop_force_close_sockets(&wrk->loop);
 
-		if (0 == g_atomic_int_get(&wrk->connection_load) && wrk->wait_for_stop_connections.active) {
+		if (0 == g_atomic_int_get(&wrk->connection_load) && g_atomic_int_get(&wrk->wait_for_stop_connections.active)) {
 			li_server_state_ready(srv, &wrk->wait_for_stop_connections);
 		}
 	} else {
@@ -594,7 +594,7 @@ void li_worker_con_put(liConnection *con) {
 	}
 
 
-	if (wrk->wait_for_stop_connections.active && 0 == g_atomic_int_get((gint*) &wrk->connection_load)) {
+	if (g_atomic_int_get(&wrk->wait_for_stop_connections.active) && 0 == g_atomic_int_get((gint*) &wrk->connection_load)) {
 		li_server_state_ready(wrk->srv, &wrk->wait_for_stop_connections);
 	}
 }
-- 
2.43.0


From 6c3742f8b96213647b62f8767e35ad1297a61dc2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:58:52 +0000
Subject: [PATCH 134/139] fix: hold the Lua lock while closing the Lua state

The finalizers of actions and values unlock and lock it again; without it
being locked that unlocks a mutex nobody holds.
---
 src/main/base_lua.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/base_lua.c b/src/main/base_lua.c
index c3bf78b..f1250cb 100644
--- a/src/main/base_lua.c
+++ b/src/main/base_lua.c
@@ -22,8 +22,11 @@ void li_lua_init(liLuaState* LL, liServer* srv, liWorker* wrk) {
 }
 
 void li_lua_clear(liLuaState* LL) {
+	/* finalizers release the lock while they free actions and values */
+	li_lua_lock(LL);
 	lua_close(LL->L);
 	LL->L = NULL;
+	g_static_rec_mutex_unlock(&LL->lualock);
 
 	g_static_rec_mutex_free(&LL->lualock);
 }
-- 
2.43.0


From c78cd3fde22fa5d76974d8d3b3347594764d6e91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:58:52 +0000
Subject: [PATCH 135/139] fix: don't share the drain buffer of closing sockets
 between threads

---
 src/common/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/events.c b/src/common/events.c
index 214c1da..117a221 100644
--- a/src/common/events.c
+++ b/src/common/events.c
@@ -19,7 +19,7 @@ static void close_socket_now(closing_socket *cs) {
 }
 
 static void closing_socket_cb(int revents, void* arg) {
-	static char trash[1024];
+	char trash[1024]; /* not static: each worker thread has its own loop */
 	closing_socket *cs = (closing_socket*) arg;
 	ssize_t r;
 	liEventLoop *loop = cs->loop;
-- 
2.43.0


From 24e1010194db2114f061941d9a86174e91f27db8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:59:48 +0000
Subject: [PATCH 136/139] fix: don't look at (and free) a backend wait entry
 without the pool lock

Another worker which lets the waiting requests fail sets the flag, and uses
the entry afterwards, while it holds the lock.
---
 src/main/backends.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 46eeaa9..56c56d9 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -1024,15 +1024,6 @@ void li_backend_wait_stop(liVRequest *vr, liBackendPool *bpool, liBackendWait **
 
 	LI_FORCE_ASSERT(vr == bwait->vr);
 
-	if (bwait->failed) {
-		bwait->vr = NULL;
-		li_job_ref_release(bwait->vr_ref);
-		bwait->vr_ref = NULL;
-		bwait->failed = FALSE;
-		g_slice_free(liBackendWait, bwait);
-		return;
-	}
-
 	g_mutex_lock(pool->lock);
 
 	if (!bwait->failed) {
-- 
2.43.0


From f8429421bfbd25483dfd5eb8465aa6a676754883 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 137/139] fix: access the initialized flag of a backend pool
 atomically

It is set by the last worker without the lock of the pool while other
workers read it in li_backend_get.
---
 src/main/backends.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 56c56d9..e2cf966 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -84,7 +84,8 @@ struct liBackendPool_p {
 
 	li_tstamp ts_disabled_till;
 
-	gboolean initialized, shutdown;
+	gint initialized; /* atomic access */
+	gboolean shutdown;
 };
 
 static void S_backend_pool_distribute(liBackendPool_p *pool, liWorker *wrk);
@@ -795,13 +796,13 @@ static void backend_pool_worker_init_done(gpointer cbdata, gpointer fdata, GPtrA
 	UNUSED(result);
 	UNUSED(complete);
 
-	pool->initialized = TRUE;
+	g_atomic_int_set(&pool->initialized, TRUE);
 }
 
 static void S_backend_pool_init(liWorker *wrk, liBackendPool_p *pool) {
 	LI_FORCE_ASSERT(!pool->shutdown);
 
-	if (pool->initialized) return;
+	if (g_atomic_int_get(&pool->initialized)) return;
 
 	if (pool->worker_pools == NULL) {
 		guint i, l = wrk->srv->worker_count;
-- 
2.43.0


From a64822ecd0d4a6b472b3814b55ff20144b61917f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 138/139] fix: fastcgi: close unused backend connections the
 backend sends something on

A connection that wasn't used for a request yet (the client went away while
connecting) stayed in the pool when the backend sent an end request or
stdout end-of-stream record and closed it; the next request crashed the
server (assertion in li_fastcgi_backend_get).
---
 src/modules/fastcgi_stream.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 5e94b9d..473770e 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -478,6 +478,12 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 	in = ctx->iostream->stream_in.out;
 	wrk = li_worker_from_iostream(ctx->iostream);
 
+	if (!ctx->is_active) {
+		/* the backend must not send anything unless there is a request; don't use this connection anymore */
+		if (in->length > 0 || in->is_closed) fastcgi_reset(ctx);
+		return;
+	}
+
 	while (NULL != ctx->iostream && 0 < in->length) {
 		gboolean newdata = FALSE;
 
@@ -652,7 +658,7 @@ static void fastcgi_stream_in(liStream *stream, liStreamEvent event) {
 		fastcgi_decode(ctx);
 		break;
 	case LI_STREAM_DISCONNECTED_SOURCE:
-		if (!ctx->request_done) {
+		if (!ctx->request_done || !ctx->is_active) {
 			fcgi_debug("fastcgi backend closed connection before request was finished\n");
 			fastcgi_reset(ctx);
 		}
-- 
2.43.0


From 96fb53e0e0b8689cf299108e2d4f3bdd35671919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:04 +0000
Subject: [PATCH 139/139] fix: uploads were forwarded partly twice when the
 disk used for buffering was full

---
 src/main/filter_buffer_on_disk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/filter_buffer_on_disk.c b/src/main/filter_buffer_on_disk.c
index 34a61a7..400ddb4 100644
--- a/src/main/filter_buffer_on_disk.c
+++ b/src/main/filter_buffer_on_disk.c
@@ -161,6 +161,8 @@ static void bod_handle_data(bod_state *state) {
 					}
 
 					VR_ERROR(state->vr, "pwrite failed: %s", g_strerror(errno));
+					/* don't forward the already written part twice */
+					li_chunkqueue_skip(in, length - data_len);
 					bod_stop(state); /* write failures are not critical */
 					return;
 				}
-- 
2.43.0

