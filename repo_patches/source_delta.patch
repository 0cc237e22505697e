From fdf8aa280cd319d1a9c16b3696eb18058b493fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:56 +0000
Subject: [PATCH 01/92] fix: don't abort response after sendfile() fallback to
 write()

After li_network_backend_write() had sent data r was still 0, which was
treated as "sendfile sent nothing, check whether the file shrank".
---
 src/main/network_sendfile.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/network_sendfile.c b/src/main/network_sendfile.c
index fa7b3b5..039f98a 100644
--- a/src/main/network_sendfile.c
+++ b/src/main/network_sendfile.c
@@ -188,7 +188,8 @@ static liNetworkStatus network_backend_sendfile(int fd, liChunkQueue *cq, goffse
 			return LI_NETWORK_STATUS_WAIT_FOR_EVENT;
 		case NSR_FALLBACK:
 			LI_NETWORK_FALLBACK(li_network_backend_write, write_max);
-			break;
+			/* fallback already updated cq and write_max; the caller retries until done */
+			return LI_NETWORK_STATUS_SUCCESS;
 		case NSR_CLOSE:
 			return LI_NETWORK_STATUS_CONNECTION_CLOSE;
 		case NSR_FATAL_ERROR:
-- 
2.43.0


From 6b468292a17f67371334d5c83bba60aef3cb748c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:56 +0000
Subject: [PATCH 02/92] fix: detect shrunk file in sendfile backend instead of
 busy looping

fstat() was called on the socket instead of the file, and a file shrunk to
exactly the current offset was waited for with EPOLLOUT forever.
---
 src/main/network_sendfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/network_sendfile.c b/src/main/network_sendfile.c
index 039f98a..0691942 100644
--- a/src/main/network_sendfile.c
+++ b/src/main/network_sendfile.c
@@ -198,12 +198,12 @@ static liNetworkStatus network_backend_sendfile(int fd, liChunkQueue *cq, goffse
 		if (0 == r) {
 			/* don't care about cached stat - file is open */
 			struct stat st;
-			if (-1 == fstat(fd, &st)) {
+			if (-1 == fstat(c->data.file.file->fd, &st)) {
 				g_set_error(err, LI_NETWORK_ERROR, 0, "network_backend_sendfile: Couldn't fstat file: %s", g_strerror(errno));
 				return LI_NETWORK_STATUS_FATAL_ERROR;
 			}
 
-			if (file_offset > st.st_size) {
+			if (file_offset >= st.st_size) {
 				/* file shrank, close the connection */
 				g_set_error(err, LI_NETWORK_ERROR, 0, "network_backend_sendfile: File shrank, aborting");
 				return LI_NETWORK_STATUS_FATAL_ERROR;
-- 
2.43.0


From d0d97137674f2927ea826ff89648b0b652fcec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:15 +0000
Subject: [PATCH 03/92] fix: don't send Content-Length together with chunked
 Transfer-Encoding

---
 src/main/response.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/response.c b/src/main/response.c
index 09eb87a..40f1ad0 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -62,8 +62,12 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
 	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
-		/* TODO: maybe someone set a content length header? */
-		if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
+		if (vr->request.http_method == LI_HTTP_METHOD_HEAD
+		    && NULL != li_http_header_lookup(vr->response.headers, CONST_STR_LEN("content-length"))) {
+			/* HEAD has no body to encode, keep the length the backend announced */
+		} else if (!(vr->response.transfer_encoding & LI_HTTP_TRANSFER_ENCODING_CHUNKED)) {
+			/* must not send both Content-Length and Transfer-Encoding */
+			li_http_header_remove(vr->response.headers, CONST_STR_LEN("content-length"));
 			vr->response.transfer_encoding |= LI_HTTP_TRANSFER_ENCODING_CHUNKED;
 			li_http_header_append(vr->response.headers, CONST_STR_LEN("Transfer-Encoding"), CONST_STR_LEN("chunked"));
 		}
-- 
2.43.0


From 81972cf36f4b3fb2b502486cac6750b78d75c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:15 +0000
Subject: [PATCH 04/92] fix: don't access freed worker when cleaning up backend
 pool

---
 src/main/backends.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index 4aa0932..c89c1e5 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -863,15 +863,15 @@ static gpointer backend_pool_worker_shutdown(liWorker *wrk, gpointer fdata) {
 
 static void backend_pool_worker_shutdown_done(gpointer cbdata, gpointer fdata, GPtrArray *result, gboolean complete) {
 	liBackendPool_p *pool = fdata;
-	UNUSED(cbdata);
+	liServer *srv = cbdata;
 	UNUSED(result);
 	UNUSED(complete);
 
 	pool->public.config->callbacks->free_cb(&pool->public);
 
 	if (pool->worker_pools != NULL) {
-		liServer *srv = pool->worker_pools[0].wrk->srv;
-		g_slice_free1(sizeof(liBackendPool_p) * srv->worker_count, pool->worker_pools);
+		/* the workers could already be gone, don't use wrk->srv from the pools here */
+		g_slice_free1(sizeof(liBackendWorkerPool) * srv->worker_count, pool->worker_pools);
 	}
 
 	g_mutex_free(pool->lock);
@@ -908,7 +908,7 @@ void li_backend_pool_free(liBackendPool *bpool) {
 
 		/*ERROR(srv, "li_backend_pool_free: %p, reserved: %i, idle: %i, pending: %i", (void*) pool,
 			pool->reserved, pool->idle, pool->pending); */
-		li_collect_start_global(srv, backend_pool_worker_shutdown, pool, backend_pool_worker_shutdown_done, NULL);
+		li_collect_start_global(srv, backend_pool_worker_shutdown, pool, backend_pool_worker_shutdown_done, srv);
 	}
 }
 
-- 
2.43.0


From df54112e90f2677a31f69aedb49bfc88fc49a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:49 +0000
Subject: [PATCH 05/92] fix: close socket on backend connect timeout

---
 src/main/backends.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/backends.c b/src/main/backends.c
index c89c1e5..1717639 100644
--- a/src/main/backends.c
+++ b/src/main/backends.c
@@ -294,8 +294,9 @@ static void backend_pool_worker_connect_timeout(liWaitQueue *wq, gpointer data)
 
 	while (NULL != (elem = li_waitqueue_pop(wq))) {
 		liBackendConnection_p *con = LI_CONTAINER_OF(elem, liBackendConnection_p, timeout_elem);
-		li_event_clear(&con->public.watcher);
-		close(li_event_io_fd(&con->public.watcher));
+		int fd = li_event_io_fd(&con->public.watcher);
+		li_event_clear(&con->public.watcher); /* resets the fd in the watcher */
+		close(fd);
 		g_slice_free(liBackendConnection_p, con);
 
 		ERROR(srv, "Couldn't connect to '%s': timeout",
-- 
2.43.0


From e611f4e4682ea30949eb3caeb1cc66c2cd1c09ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:37 +0000
Subject: [PATCH 06/92] fix: detect truncated SCGI/FastCGI responses with
 Content-Length

---
 src/main/stream_http_response.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 2981f0c..7b531e1 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -168,6 +168,21 @@ static void check_response_header(liStreamHttpResponse* shr) {
 		}
 	}
 
+	if (!shr->transfer_encoding_chunked && !shr->keepalive) {
+		/**
+		 * the body ends with the stream, but if the backend announced a
+		 * content-length use it to detect incomplete responses
+		 */
+		liHttpHeader *hh = li_http_header_lookup(resp->headers, CONST_STR_LEN("content-length"));
+
+		if (NULL != hh && LI_HTTP_METHOD_HEAD != shr->vr->request.http_method
+			&& 204 != resp->http_status && 304 != resp->http_status) {
+			char *err;
+			gint64 r = g_ascii_strtoll(LI_HEADER_VALUE(hh), &err, 10);
+			if ('\0' == *err && r >= 0) shr->content_length = r;
+		}
+	}
+
 	shr->response_headers_finished = TRUE;
 	li_vrequest_indirect_headers_ready(shr->vr);
 
@@ -210,9 +225,11 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 			li_stream_disconnect(&shr->stream);
 		}
 	} else if (shr->wait_for_close) {
-		li_chunkqueue_steal_all(shr->stream.out, shr->stream.source->out);
+		goffset moved = li_chunkqueue_steal_all(shr->stream.out, shr->stream.source->out);
+		if (shr->content_length > 0) shr->content_length -= MIN(shr->content_length, moved);
 		if (shr->stream.source->out->is_closed) {
-			shr->stream.out->is_closed = TRUE;
+			/* don't mark an incomplete body as finished, abort it instead */
+			if (shr->content_length <= 0) shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
 		}
 	} else {
-- 
2.43.0


From 5f3433be9dda1a5c03d45484c1da272bc02cc2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:00 +0000
Subject: [PATCH 07/92] fix: don't wait forever for a truncated FastCGI end
 request record

---
 src/modules/fastcgi_stream.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 346d215..c37875f 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -519,7 +519,13 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 					fastcgi_reset(ctx);
 					return;
 				}
-				if (in->length < 8) return; /* wait for more */
+				if (in->length < 8) {
+					if (in->is_closed) {
+						fcgi_debug("unexpected eof in FCGI_END_REQUEST record\n");
+						fastcgi_reset(ctx);
+					}
+					return; /* wait for more */
+				}
 
 				{
 					unsigned char endreq[8];
-- 
2.43.0


From e3c80007d9960969d222276abde6803810eaaee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:09 +0000
Subject: [PATCH 08/92] fix: don't keep connection alive if request body wasn't
 read completely

---
 src/main/connection.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 12ec924..fd84632 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -427,6 +427,10 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			if (0 == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE).number) {
 				con->info.keep_alive = FALSE;
 			}
+			if (!con->in.out->is_closed) {
+				/* the rest of the request body would get parsed as next request */
+				con->info.keep_alive = FALSE;
+			}
 			li_response_send_headers(vr, raw_out, out, FALSE);
 		}
 
-- 
2.43.0


From 342920f294d1cfe2d97406fec1820d5435017a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 09/92] fix: don't duplicate partially written data if
 buffering on disk fails

---
 src/main/filter_buffer_on_disk.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/filter_buffer_on_disk.c b/src/main/filter_buffer_on_disk.c
index 34a61a7..cc2f595 100644
--- a/src/main/filter_buffer_on_disk.c
+++ b/src/main/filter_buffer_on_disk.c
@@ -161,6 +161,8 @@ static void bod_handle_data(bod_state *state) {
 					}
 
 					VR_ERROR(state->vr, "pwrite failed: %s", g_strerror(errno));
+					/* data already written is going to be flushed; don't forward it twice */
+					li_chunkqueue_skip(in, length - data_len);
 					bod_stop(state); /* write failures are not critical */
 					return;
 				}
-- 
2.43.0


From e1dcc982fe716f60ad15fee4adb416fce6451c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:41 +0000
Subject: [PATCH 10/92] fix: don't use closed connection after sending 100
 Continue

---
 src/main/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index fd84632..4473346 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -338,6 +338,9 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 			con->expect_100_cont = FALSE;
 
 			li_stream_notify(&con->out);
+
+			/* writing could have failed and closed the connection */
+			if (LI_CON_STATE_READ_REQUEST_HEADER != con->state) return;
 		}
 
 		con->state = LI_CON_STATE_HANDLE_MAINVR;
-- 
2.43.0


From 1191e9700778f937c449b727f83450c9b0ca6632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:43 +0000
Subject: [PATCH 11/92] fix: reset chunked decoder state when reusing
 connection structs

---
 src/main/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index 4473346..fc1e163 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -769,6 +769,8 @@ static void li_connection_reset2(liConnection *con) {
 
 	li_http_request_parser_reset(&con->req_parser_ctx);
 
+	memset(&con->in_chunked_decode_state, 0, sizeof(con->in_chunked_decode_state));
+
 	g_string_truncate(con->info.remote_addr_str, 0);
 	li_sockaddr_clear(&con->info.remote_addr);
 	g_string_truncate(con->info.local_addr_str, 0);
-- 
2.43.0


From 99db86db7c1aff217ed39d5523109303e56256da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:48 +0000
Subject: [PATCH 12/92] fix: resume reading after the connection input limit
 was reached

---
 src/main/stream.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/stream.c b/src/main/stream.c
index 0b8d461..447d44f 100644
--- a/src/main/stream.c
+++ b/src/main/stream.c
@@ -344,7 +344,15 @@ static void iostream_in_cb(liStream *stream, liStreamEvent event) {
 	switch (event) {
 	case LI_STREAM_NEW_DATA:
 		if (0 == li_chunkqueue_limit_available(stream->out)) {
-			/* locked */
+			/* locked: wait for limit to enable (and trigger) the read event again */
+			if (iostream->stream_in_limit != stream->out->limit) {
+				iostream_in_cb(stream, LI_STREAM_NEW_CQLIMIT);
+			}
+			iostream->can_read = FALSE;
+			li_event_io_rem_events(&iostream->io_watcher, LI_EV_READ);
+			if (!iostream->throttled_out && !iostream->can_write && !iostream->out_closed) {
+				li_event_io_add_events(&iostream->io_watcher, LI_EV_WRITE);
+			}
 			return;
 		}
 		if (!iostream->throttled_in && iostream->can_read) {
-- 
2.43.0


From 80f901c17c2e15ef855c6d14dfa3c493a44bead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:37 +0000
Subject: [PATCH 13/92] fix: wait for client to close connection before closing
 socket (lingering close)

---
 src/main/stream_simple_socket.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/main/stream_simple_socket.c b/src/main/stream_simple_socket.c
index 269af98..3cc687e 100644
--- a/src/main/stream_simple_socket.c
+++ b/src/main/stream_simple_socket.c
@@ -7,6 +7,7 @@
 
 void li_stream_simple_socket_close(liIOStream *stream, gboolean aborted) {
 	int fd = li_event_io_fd(&stream->io_watcher);
+	gboolean in_closed = stream->in_closed;
 
 	li_event_detach(&stream->io_watcher);
 
@@ -18,7 +19,7 @@ void li_stream_simple_socket_close(liIOStream *stream, gboolean aborted) {
 		stream->stream_in.out->is_closed = TRUE;
 	}
 
-	if (aborted || stream->in_closed) {
+	if (aborted || in_closed) {
 		fd = li_iostream_reset(stream);
 		if (-1 != fd) {
 			shutdown(fd, SHUT_RDWR);
@@ -26,11 +27,12 @@ void li_stream_simple_socket_close(liIOStream *stream, gboolean aborted) {
 		}
 	} else {
 		liWorker *wrk = li_worker_from_iostream(stream);
-		li_event_clear(&stream->io_watcher); /* sets io_fd to -1 */
 
-		shutdown(fd, SHUT_WR);
-		li_stream_disconnect(&stream->stream_out);
-		li_worker_add_closing_socket(wrk, fd);
+		fd = li_iostream_reset(stream);
+		if (-1 != fd) {
+			shutdown(fd, SHUT_WR);
+			li_worker_add_closing_socket(wrk, fd);
+		}
 	}
 	LI_FORCE_ASSERT(-1 == li_event_io_fd(&stream->io_watcher));
 }
-- 
2.43.0


From c37ee0d668bd53daf897913c4a295aac651088de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:41 +0000
Subject: [PATCH 14/92] fix: don't touch reused request when FastCGI backend
 fails after complete response

---
 src/modules/fastcgi_stream.c | 5 ++++-
 src/modules/mod_fastcgi.c    | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index c37875f..6c304be 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -597,7 +597,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 
 					fcgi_debug("fastcgi stderr data: '%s'\n", errormsg->str);
 
-					if (NULL != ctx->currentcon) {
+					if (NULL != ctx->currentcon && NULL != ctx->currentcon->vr) {
 						const liFastCGIBackendCallbacks *callbacks = ctx->pool->callbacks;
 						callbacks->fastcgi_stderr_cb(ctx->currentcon->vr, &ctx->pool->public, &ctx->currentcon->public, errormsg);
 					}
@@ -658,6 +658,9 @@ static void fastcgi_stream_in(liStream *stream, liStreamEvent event) {
 			fcgi_debug("request aborted (by client?) before request was finished\n");
 			fastcgi_reset(ctx);
 		} else {
+			/* vrequest is done, but we're still waiting for the end of the fastcgi
+			 * request: the vrequest might get reused now */
+			if (NULL != ctx->iostream && NULL != ctx->currentcon) ctx->currentcon->vr = NULL;
 			fastcgi_check_put(ctx);
 		}
 		break;
diff --git a/src/modules/mod_fastcgi.c b/src/modules/mod_fastcgi.c
index 09a9380..d35ebce 100644
--- a/src/modules/mod_fastcgi.c
+++ b/src/modules/mod_fastcgi.c
@@ -55,7 +55,7 @@ static void fastcgi_con_reset_cb(liVRequest *vr, liFastCGIBackendPool *pool, liF
 	UNUSED(pool);
 
 	li_fastcgi_backend_put(bcon);
-	if (vr->state < LI_VRS_HANDLE_RESPONSE_HEADERS) li_vrequest_error(vr);
+	if (NULL != vr && vr->state < LI_VRS_HANDLE_RESPONSE_HEADERS) li_vrequest_error(vr);
 	fastcgi_context_release(ctx);
 }
 static void fastcgi_con_end_request_cb(liVRequest *vr, liFastCGIBackendPool *pool, liFastCGIBackendConnection *bcon, guint32 appStatus) {
-- 
2.43.0


From 0c4bfb8baf4b428ccfb98ad4108b0fe1374f977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:43 +0000
Subject: [PATCH 15/92] fix: don't clear log watcher while it might get
 triggered

---
 src/main/log.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/log.c b/src/main/log.c
index 0eb6b72..ac21b5f 100644
--- a/src/main/log.c
+++ b/src/main/log.c
@@ -327,8 +327,8 @@ static void log_watcher_cb(liEventBase *watcher, int events) {
 			log_close(srv, wqe->data);
 		}
 		li_waitqueue_stop(&srv->logs.close_queue);
-		li_event_clear(&srv->logs.watcher);
-		li_event_loop_end(&srv->logs.loop);
+		/* keep watcher until cleanup: another thread might be about to wake us up */
+		li_event_loop_exit(&srv->logs.loop);
 		return;
 	}
 
@@ -406,8 +406,8 @@ next:
 			log_close(srv, wqe->data);
 		}
 		li_waitqueue_stop(&srv->logs.close_queue);
-		li_event_clear(&srv->logs.watcher);
-		li_event_loop_end(&srv->logs.loop);
+		/* keep watcher until cleanup: another thread might be about to wake us up */
+		li_event_loop_exit(&srv->logs.loop);
 		return;
 	}
 
-- 
2.43.0


From fbf4f565403d9a44d15ab7ad2ff1a8e51fde61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:00 +0000
Subject: [PATCH 16/92] fix: abort response if proxy backend closes connection
 before sending announced content

---
 src/main/stream_http_response.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 7b531e1..0c00315 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -242,6 +242,9 @@ static void stream_http_response_data(liStreamHttpResponse* shr) {
 		if (shr->content_length == 0) {
 			shr->stream.out->is_closed = TRUE;
 			li_stream_disconnect(&shr->stream);
+		} else if (shr->stream.source->out->is_closed) {
+			/* incomplete body: abort */
+			li_stream_disconnect(&shr->stream);
 		}
 	}
 	li_stream_notify(&shr->stream);
-- 
2.43.0


From 5f468436861372257aca957324457efe455f595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:07 +0000
Subject: [PATCH 17/92] fix: abort response if backend fails before response
 headers were handled

---
 src/main/stream_http_response.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index 0c00315..e6d7b19 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -190,7 +190,11 @@ static void check_response_header(liStreamHttpResponse* shr) {
 }
 
 static void stream_http_response_data(liStreamHttpResponse* shr) {
-	if (NULL == shr->stream.source) return;
+	if (NULL == shr->stream.source) {
+		/* lost backend before we got connected: "abort" */
+		if (!shr->stream.out->is_closed) li_stream_disconnect_dest(&shr->stream);
+		return;
+	}
 
 	if (!shr->response_headers_finished) {
 		switch (li_http_response_parse(shr->vr, &shr->parse_response_ctx)) {
@@ -258,6 +262,10 @@ static void stream_http_response_cb(liStream *stream, liStreamEvent event) {
 	case LI_STREAM_NEW_DATA:
 		stream_http_response_data(shr);
 		break;
+	case LI_STREAM_CONNECTED_DEST:
+		/* lost backend before the response headers were handled: "abort" when everything is connected */
+		if (NULL == stream->source && !stream->out->is_closed) li_stream_again_later(stream);
+		break;
 	case LI_STREAM_DISCONNECTED_DEST:
 		shr->vr = NULL;
 		li_stream_disconnect(stream);
-- 
2.43.0


From 26240442d4a8d028a86c552c7db165554c627571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:53 +0000
Subject: [PATCH 18/92] fix: report error if backend is lost between headers
 and response handling

---
 src/main/stream_http_response.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/stream_http_response.c b/src/main/stream_http_response.c
index e6d7b19..13ca2fc 100644
--- a/src/main/stream_http_response.c
+++ b/src/main/stream_http_response.c
@@ -192,7 +192,11 @@ static void check_response_header(liStreamHttpResponse* shr) {
 static void stream_http_response_data(liStreamHttpResponse* shr) {
 	if (NULL == shr->stream.source) {
 		/* lost backend before we got connected: "abort" */
-		if (!shr->stream.out->is_closed) li_stream_disconnect_dest(&shr->stream);
+		if (!shr->response_headers_finished) {
+			if (NULL != shr->vr) li_vrequest_error(shr->vr);
+		} else if (!shr->stream.out->is_closed) {
+			li_stream_disconnect_dest(&shr->stream);
+		}
 		return;
 	}
 
@@ -271,6 +275,11 @@ static void stream_http_response_cb(liStream *stream, liStreamEvent event) {
 		li_stream_disconnect(stream);
 		break;
 	case LI_STREAM_DISCONNECTED_SOURCE:
+		if (!shr->response_headers_finished) {
+			/* "abort" later: the vrequest might just get reset (and destroy us) */
+			li_stream_again_later(stream);
+			break;
+		}
 		shr->vr = NULL;
 		if (!stream->out->is_closed) {
 			/* "abort" */
-- 
2.43.0


From aa0ffa692116e66e7b9978de389e3326410eb51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:53 +0000
Subject: [PATCH 19/92] fix: notify response stream when FastCGI backend closes
 without end request

---
 src/modules/fastcgi_stream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 6c304be..86dfb60 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -634,6 +634,7 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 		} else {
 			ctx->stdin_closed = ctx->stdout_closed = ctx->stderr_closed = ctx->request_done = TRUE;
 			ctx->fcgi_in.out->is_closed = TRUE;
+			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
 		}
 	}
-- 
2.43.0


From edcc4b848ebd53b26d1b47b7966d3fa1c1dddd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:04 +0000
Subject: [PATCH 20/92] fix: use chunked encoding for HTTP/1.1 responses of
 unknown length on closing connections

---
 src/main/response.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/response.c b/src/main/response.c
index 40f1ad0..1f850fc 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -61,7 +61,7 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 			g_string_printf(vr->wrk->tmp_str, "%"LI_GOFFSET_FORMAT, response_body->length);
 			li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Length"), GSTR_LEN(vr->wrk->tmp_str));
 		}
-	} else if (vr->coninfo->keep_alive && vr->request.http_version == LI_HTTP_VERSION_1_1) {
+	} else if (vr->request.http_version == LI_HTTP_VERSION_1_1) {
 		if (vr->request.http_method == LI_HTTP_METHOD_HEAD
 		    && NULL != li_http_header_lookup(vr->response.headers, CONST_STR_LEN("content-length"))) {
 			/* HEAD has no body to encode, keep the length the backend announced */
-- 
2.43.0


From bb6242ba61a7cb62008b712fc3fa677501f5cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:43 +0000
Subject: [PATCH 21/92] fix: reject requests with more than one Content-Length
 header

---
 src/main/request.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 86a0cbb..56203c7 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -188,12 +188,19 @@ gboolean li_request_validate_header(liConnection *con) {
 	}
 
 	/* content-length */
-	hh = li_http_header_lookup(req->headers, CONST_STR_LEN("content-length"));
-	if (hh) {
-		const gchar *val = LI_HEADER_VALUE(hh);
+	l = li_http_header_find_first(req->headers, CONST_STR_LEN("content-length"));
+	if (NULL != l) {
+		const gchar *val;
 		gint64 r;
 		char *err;
 
+		if (NULL != li_http_header_find_next(l, CONST_STR_LEN("content-length"))) {
+			/* more than one "content-length" header: message framing is ambiguous */
+			bad_request(con, 400); /* bad request */
+			return FALSE;
+		}
+		hh = (liHttpHeader*) l->data;
+		val = LI_HEADER_VALUE(hh);
 		r = g_ascii_strtoll(val, &err, 10);
 		if (*err != '\0') {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
-- 
2.43.0


From 361af00c106dea47fa26b34b674bc448a3a28a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:43 +0000
Subject: [PATCH 22/92] fix: don't parse data after a bad request header as
 request body

---
 src/main/connection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index fc1e163..208cad5 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -279,6 +279,7 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 
 			con->info.keep_alive = FALSE;
 			vr->response.http_status = 414; /* Request-URI Too Large */
+			in->is_closed = TRUE; /* no body after a bad request header */
 			con->state = LI_CON_STATE_WRITE;
 			li_connection_update_io_wait(con);
 			li_stream_again(&con->out);
@@ -302,6 +303,7 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 			/* set status 400 if not already set to e.g. 413 */
 			if (vr->response.http_status == 0)
 				vr->response.http_status = 400;
+			in->is_closed = TRUE; /* no body after a bad request header */
 			con->state = LI_CON_STATE_WRITE;
 			li_connection_update_io_wait(con);
 			li_stream_again(&con->out);
@@ -318,6 +320,7 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 			/* set status 400 if not already set */
 			if (vr->response.http_status == 0)
 				vr->response.http_status = 400;
+			in->is_closed = TRUE; /* no body after a bad request header */
 			con->state = LI_CON_STATE_WRITE;
 			con->info.keep_alive = FALSE;
 			li_connection_update_io_wait(con);
-- 
2.43.0


From a4f44f1a8bb6015686f325f923a8e42b9e5e378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:37 +0000
Subject: [PATCH 23/92] fix: read available request body before handling
 request

---
 src/main/connection.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 208cad5..223464c 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -196,6 +196,7 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 	liConnection *con = LI_CONTAINER_OF(stream, liConnection, in);
 	liChunkQueue *raw_in, *in;
 	liVRequest *vr = con->mainvr;
+	gboolean handle_request = FALSE;
 
 	switch (event) {
 	case LI_STREAM_NEW_DATA:
@@ -350,7 +351,7 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 		li_connection_update_io_wait(con);
 		li_action_enter(vr, con->srv->mainaction);
 
-		li_vrequest_handle_request_headers(vr);
+		handle_request = TRUE;
 	}
 
 	if (con->state != LI_CON_STATE_READ_REQUEST_HEADER && !in->is_closed) {
@@ -380,6 +381,9 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 			li_stream_notify(&con->in);
 		}
 	}
+
+	/* start handling after reading the available body, keep-alive depends on whether the body is complete */
+	if (handle_request) li_vrequest_handle_request_headers(vr);
 }
 
 /* http response header/data -> tcp/ssl */
-- 
2.43.0


From 5d697011d4e398c0bf173999ee7baa849bef1267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:57 +0000
Subject: [PATCH 24/92] fix: don't finish request before the response was
 passed to the socket

---
 src/main/connection.c     | 2 +-
 src/modules/mod_gnutls.c  | 2 +-
 src/modules/mod_openssl.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 223464c..9d21c06 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -76,7 +76,7 @@ static void simple_tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 
 	li_connection_simple_tcp(&data->con, stream, &data->simple_tcp_context, event);
 
-	if (NULL != data->con && data->con->out_has_all_data
+	if (NULL != data->con && data->con->out_has_all_data && 0 == data->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)) {
 		li_stream_simple_socket_flush(stream);
 		li_connection_request_done(data->con);
diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index ce030da..0facd75 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -346,7 +346,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
-	if (NULL != conctx->con && conctx->con->out_has_all_data
+	if (NULL != conctx->con && conctx->con->out_has_all_data && 0 == conctx->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)
 	    && li_streams_empty(conctx->con->con_sock.raw_out, NULL)) {
 		li_stream_simple_socket_flush(stream);
diff --git a/src/modules/mod_openssl.c b/src/modules/mod_openssl.c
index b3cec9f..3d80004 100644
--- a/src/modules/mod_openssl.c
+++ b/src/modules/mod_openssl.c
@@ -94,7 +94,7 @@ static void tcp_io_cb(liIOStream *stream, liIOStreamEvent event) {
 
 	li_connection_simple_tcp(&conctx->con, stream, &conctx->simple_socket_data, event);
 
-	if (NULL != conctx->con && conctx->con->out_has_all_data
+	if (NULL != conctx->con && conctx->con->out_has_all_data && 0 == conctx->con->out.out->length
 	    && (NULL == stream->stream_out.out || 0 == stream->stream_out.out->length)
 	    && li_streams_empty(conctx->con->con_sock.raw_out, NULL)) {
 		li_stream_simple_socket_flush(stream);
-- 
2.43.0


From 97c719a349843181db1028c8c1aa4da47d81c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:42 +0000
Subject: [PATCH 25/92] fix: apply keepalive.requests option of the request,
 and count the first request

---
 src/main/connection.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 9d21c06..3d3802d 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -243,9 +243,6 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 		li_event_stop(&con->keep_alive_data.watcher);
 
 		con->keep_alive_requests++;
-		/* disable keep alive if limit is reached */
-		if (con->keep_alive_requests == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number)
-			con->info.keep_alive = FALSE;
 
 		/* reopen stream for request body */
 		li_chunkqueue_reset(in);
@@ -437,6 +434,11 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 			if (0 == CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_IDLE).number) {
 				con->info.keep_alive = FALSE;
 			}
+			/* disable keep alive if limit is reached (keep_alive_requests doesn't include the first request) */
+			if (0 != CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number
+				&& con->keep_alive_requests + 1 >= CORE_OPTION(LI_CORE_OPTION_MAX_KEEP_ALIVE_REQUESTS).number) {
+				con->info.keep_alive = FALSE;
+			}
 			if (!con->in.out->is_closed) {
 				/* the rest of the request body would get parsed as next request */
 				con->info.keep_alive = FALSE;
-- 
2.43.0


From 927c862c6a0805f49d490def16629ec43ecd05ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:13 +0000
Subject: [PATCH 26/92] fix: stop listening when stopping before startup
 finished

---
 src/main/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/server.c b/src/main/server.c
index c3e91eb..83b1fa6 100644
--- a/src/main/server.c
+++ b/src/main/server.c
@@ -712,6 +712,8 @@ static void li_server_start_transition(liServer *srv, liServerState state) {
 		/* wait for closed connections and plugins */
 		break;
 	case LI_SERVER_STOPPING:
+		/* might come from SUSPENDED with the transition to WARMUP already started, i.e. already be listening */
+		li_server_stop_listen(srv);
 		/* stop all workers */
 		for (i = 0; i < srv->worker_count; i++) {
 			liWorker *wrk;
-- 
2.43.0


From 4579f0c6e1cc216af6acf3806b48c284c14de771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:22 +0000
Subject: [PATCH 27/92] fix: don't spin when accept fails because of missing
 file descriptors

---
 src/main/server.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/server.c b/src/main/server.c
index 83b1fa6..1056239 100644
--- a/src/main/server.c
+++ b/src/main/server.c
@@ -459,8 +459,10 @@ static void li_server_listen_cb(liEventBase *watcher, int events) {
 		break;
 
 	case EMFILE: /* we are out of FDs */
+	case ENFILE: /* the system is out of FDs */
 		li_server_out_of_fds(srv);
-		/* TODO: disable accept callbacks? */
+		/* disable accept callbacks for now, otherwise we'd get called again immediately */
+		server_connection_limit_hit(srv);
 		break;
 	default:
 		ERROR(srv, "accept failed on fd=%d with error: %s", fd, g_strerror(errno));
-- 
2.43.0


From 1f8e1a26b659f30bcbf8c96fad4700c425c04df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:52 +0000
Subject: [PATCH 28/92] fix: throttle pools stalled when the millisecond
 timestamp wrapped around

---
 src/main/throttle.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index e5147a9..b87e316 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -115,14 +115,15 @@ static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now)
 		g_mutex_unlock(pool->rearm_mutex);
 	}
 
-	if (HEDLEY_UNLIKELY(wpool->last_rearm < last)) {
+	/* timestamps wrap around, don't compare with "<" */
+	if (HEDLEY_UNLIKELY(wpool->last_rearm != last)) {
 		/* distribute wpool->magazine */
 		GList *lnk;
 		guint connections = wpool->connections;
 		gint magazine = g_atomic_int_get(&wpool->magazine);
 		gint supply = magazine / connections;
 		g_atomic_int_add(&wpool->magazine, -supply * connections);
-		wpool->last_rearm = now;
+		wpool->last_rearm = last;
 
 		throttle_debug("throttle_pool_rearm: distribute supply %i on each of %i connections\n",
 			supply, connections);
-- 
2.43.0


From 68771ccf49d903e6273d4be5aba0f2b39e0d6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:56 +0000
Subject: [PATCH 29/92] fix: limit the credit a throttle pool collects for a
 worker with blocked connections

---
 src/main/throttle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index b87e316..de7b3c6 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -92,6 +92,8 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 	for (i = 0; i < worker_count; ++i) {
 		gint wrk_fill;
 		if (0 == wrk_connections[i]) continue;
+		/* connections waiting for their client don't use their share: don't collect more than burst for them */
+		if (g_atomic_int_get(&pool->workers[i].magazine) >= (gint) pool->burst) continue;
 		wrk_fill = (fill * wrk_connections[i]) / connections;
 		throttle_debug("rearm worker %u: refill %u\n", i, wrk_fill);
 		g_atomic_int_add(&pool->workers[i].magazine, wrk_fill);
-- 
2.43.0


From 1ab609b010c31f237a8350327c8bdc5b2fcc1384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:08 +0000
Subject: [PATCH 30/92] fix: limit.req needs a mutex

---
 src/modules/mod_limit.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 76eaef9..7cb9732 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -73,6 +73,7 @@ static mod_limit_context* mod_limit_context_new(mod_limit_context_type type, gin
 	case ML_TYPE_REQ:
 		ctx->pool.req.num = 0;
 		ctx->pool.req.ts = 0;
+		ctx->mutex = g_mutex_new();
 		break;
 	case ML_TYPE_REQ_IP:
 		ctx->pool.req_ip = li_radixtree_new();
-- 
2.43.0


From e6c1f7a72a4b7e82557ed39dae531def449cbde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:08 +0000
Subject: [PATCH 31/92] fix: limit.con admitted one request too many

---
 src/modules/mod_limit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_limit.c b/src/modules/mod_limit.c
index 7cb9732..522293e 100644
--- a/src/modules/mod_limit.c
+++ b/src/modules/mod_limit.c
@@ -236,13 +236,13 @@ static liHandlerResult mod_limit_action_handle(liVRequest *vr, gpointer param, g
 #ifdef GLIB_VERSION_2_30
 		/* since 2.30 g_atomic_int_add does the same as g_atomic_int_exchange_and_add,
 		 * before it didn't return the old value. this fixes the deprecation warning. */
-		if (g_atomic_int_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
 		}
 #else
-		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) > ctx->limit) {
+		if (g_atomic_int_exchange_and_add(&ctx->pool.con, 1) >= ctx->limit) {
 			g_atomic_int_add(&ctx->pool.con, -1);
 			limit_reached = TRUE;
 			VR_DEBUG(vr, "limit.con: limit reached (%d active connections)", ctx->limit);
-- 
2.43.0


From b379b59b8bf1b161de91cb22e3e9f50198ade5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:01 +0000
Subject: [PATCH 32/92] fix: write the last log entries of a worker at shutdown

Entries queued after the last iteration of the worker event loop were
dropped, e.g. the access log entry of the last request.
---
 src/main/worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/worker.c b/src/main/worker.c
index e9811cd..adbcc6f 100644
--- a/src/main/worker.c
+++ b/src/main/worker.c
@@ -389,6 +389,8 @@ struct ev_loop* li_worker_free(liWorker *wrk) {
 	g_async_queue_unref(wrk->collect_queue);
 	wrk->collect_queue = NULL;
 
+	/* flush remaining log entries (the loop is not going to do this anymore) */
+	li_worker_prepare_cb(&wrk->loop_prepare.base, 0);
 	li_event_clear(&wrk->loop_prepare);
 
 	g_string_free(wrk->tmp_str, TRUE);
-- 
2.43.0


From 3a041e0d2f8158861e97f4167cb9405d0f23e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:01 +0000
Subject: [PATCH 33/92] fix: hex escapes of bytes >= 0x80 in the access log

---
 src/modules/mod_accesslog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 8b34e33..50c08b8 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -124,9 +124,9 @@ static void al_append_escaped(GString *log, GString *str) {
 			} else {
 				/* non printable char => \xHH */
 				gchar hh[5] = {'\\','x',0,0,0};
-				gchar h = str->str[i] / 16;
+				guchar h = (guchar) str->str[i] / 16;
 				hh[2] = (h > 9) ? (h - 10 + 'A') : (h + '0');
-				h = str->str[i] % 16;
+				h = (guchar) str->str[i] % 16;
 				hh[3] = (h > 9) ? (h - 10 + 'A') : (h + '0');
 				li_g_string_append_len(log, &hh[0], 4);
 			}
-- 
2.43.0


From d668369c16ef5fe25f0a5136eca266b815008776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:01 +0000
Subject: [PATCH 34/92] fix: log thread could finish with entries left in the
 queue

---
 src/main/log.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/log.c b/src/main/log.c
index ac21b5f..d0c1a7c 100644
--- a/src/main/log.c
+++ b/src/main/log.c
@@ -317,6 +317,7 @@ static GString *log_timestamp_format(liServer *srv) {
 static void log_watcher_cb(liEventBase *watcher, int events) {
 	liServer *srv = LI_CONTAINER_OF(li_event_async_from(watcher), liServer, logs.watcher);
 	GList *queue_link, *queue_link_next;
+	gboolean finish;
 
 	UNUSED(events);
 
@@ -332,6 +333,9 @@ static void log_watcher_cb(liEventBase *watcher, int events) {
 		return;
 	}
 
+	/* check before emptying the queue: everything that was queued before the finish request has to get written */
+	finish = (g_atomic_int_get(&srv->logs.thread_finish) == TRUE);
+
 	/* pop everything from global write queue */
 	g_static_mutex_lock(&srv->logs.write_queue_mutex);
 	queue_link = g_queue_peek_head_link(&srv->logs.write_queue);
@@ -399,7 +403,7 @@ next:
 		queue_link = queue_link_next;
 	}
 
-	if (g_atomic_int_get(&srv->logs.thread_finish) == TRUE) {
+	if (finish) {
 		liWaitQueueElem *wqe;
 
 		while ((wqe = li_waitqueue_pop_force(&srv->logs.close_queue)) != NULL) {
-- 
2.43.0


From db1ebe825e870bf69ff5451e04e53b7ff8c15d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:08 +0000
Subject: [PATCH 35/92] fix: body size in the access log included the response
 header

%b and %B are documented to exclude it.
---
 include/lighttpd/response.h |  1 +
 src/main/response.c         |  4 ++++
 src/modules/mod_accesslog.c | 11 ++++++++---
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/lighttpd/response.h b/include/lighttpd/response.h
index 0e88894..b3deb3f 100644
--- a/include/lighttpd/response.h
+++ b/include/lighttpd/response.h
@@ -9,6 +9,7 @@ struct liResponse {
 	liHttpHeaders *headers;
 	gint http_status;
 	liTransferEncoding transfer_encoding;
+	goffset header_bytes; /* everything in the output queue before the body: response header, 100 Continue */
 };
 
 LI_API void li_response_init(liResponse *resp);
diff --git a/src/main/response.c b/src/main/response.c
index 1f850fc..d5efae9 100644
--- a/src/main/response.c
+++ b/src/main/response.c
@@ -8,18 +8,21 @@ void li_response_init(liResponse *resp) {
 	resp->headers = li_http_headers_new();
 	resp->http_status = 0;
 	resp->transfer_encoding = LI_HTTP_TRANSFER_ENCODING_IDENTITY;
+	resp->header_bytes = 0;
 }
 
 void li_response_reset(liResponse *resp) {
 	li_http_headers_reset(resp->headers);
 	resp->http_status = 0;
 	resp->transfer_encoding = LI_HTTP_TRANSFER_ENCODING_IDENTITY;
+	resp->header_bytes = 0;
 }
 
 void li_response_clear(liResponse *resp) {
 	li_http_headers_free(resp->headers);
 	resp->http_status = 0;
 	resp->transfer_encoding = LI_HTTP_TRANSFER_ENCODING_IDENTITY;
+	resp->header_bytes = 0;
 }
 
 static void li_response_send_error_page(liVRequest *vr, liChunkQueue *response_body);
@@ -148,6 +151,7 @@ void li_response_send_headers(liVRequest *vr, liChunkQueue *raw_out, liChunkQueu
 
 	li_g_string_append_len(head, CONST_STR_LEN("\r\n"));
 	li_chunkqueue_append_string(raw_out, head);
+	vr->response.header_bytes = raw_out->bytes_in;
 
 	if (NULL != tmp_cq) {
 		li_chunkqueue_steal_all(raw_out, tmp_cq);
diff --git a/src/modules/mod_accesslog.c b/src/modules/mod_accesslog.c
index 50c08b8..3a050a6 100644
--- a/src/modules/mod_accesslog.c
+++ b/src/modules/mod_accesslog.c
@@ -212,6 +212,11 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 	liResponse *resp = &vr->response;
 	liRequest *req = &vr->request;
 	liPhysical *phys = &vr->physical;
+	goffset body_bytes = 0;
+
+	if (NULL != vr->coninfo->resp && vr->coninfo->resp->out->bytes_out > resp->header_bytes) {
+		body_bytes = vr->coninfo->resp->out->bytes_out - resp->header_bytes;
+	}
 
 	for (guint i = 0; i < format->len; i++) {
 		GString *tmp_gstr2 = NULL;
@@ -231,11 +236,11 @@ static GString *al_format_log(liVRequest *vr, al_data *ald, GArray *format) {
 				li_g_string_append_len(str, GSTR_LEN(vr->coninfo->local_addr_str));
 				break;
 			case AL_FORMAT_BYTES_RESPONSE:
-				li_string_append_int(str, (NULL != vr->coninfo->resp) ? vr->coninfo->resp->out->bytes_out : 0);
+				li_string_append_int(str, body_bytes);
 				break;
 			case AL_FORMAT_BYTES_RESPONSE_CLF:
-				if (NULL != vr->coninfo->resp && vr->coninfo->resp->out->bytes_out)
-					li_string_append_int(str, vr->coninfo->resp->out->bytes_out);
+				if (body_bytes > 0)
+					li_string_append_int(str, body_bytes);
 				else
 					g_string_append_c(str, '-');
 				break;
-- 
2.43.0


From 553305c58946a9204bd76c9c951e58b24504b084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:40 +0000
Subject: [PATCH 36/92] fix: keep sharing the io.throttle_ip pool on keep-alive
 connections

---
 src/modules/mod_throttle.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/modules/mod_throttle.c b/src/modules/mod_throttle.c
index 9f90a81..bf46c7e 100644
--- a/src/modules/mod_throttle.c
+++ b/src/modules/mod_throttle.c
@@ -224,23 +224,21 @@ static liHandlerResult core_handle_throttle_ip(liVRequest *vr, gpointer param, g
 	if (NULL != state) {
 		refcounted_pool_entry *entry = create_ip_pool(vr->wrk->srv, pools, &vr->coninfo->remote_addr);
 		if (NULL != entry) {
-			if (!li_throttle_add_pool(vr->wrk, state, entry->pool)) {
-				/* we already had a reference */
-				g_atomic_int_add(&pools->refcount, -1);
-				LI_FORCE_ASSERT(g_atomic_int_get(&pools->refcount) > 0);
-				g_atomic_int_add(&entry->refcount, -1);
-				LI_FORCE_ASSERT(g_atomic_int_get(&entry->refcount) > 0);
-			} else {
-				GArray *vr_ip_pools = (GArray*) g_ptr_array_index(vr->plugin_ctx, pools->plugin_id);
-				vr_ip_pools_entry ventry;
-				if (NULL == vr_ip_pools) {
-					vr_ip_pools = g_array_new(FALSE, TRUE, sizeof(vr_ip_pools_entry));
-					g_ptr_array_index(vr->plugin_ctx, pools->plugin_id) = vr_ip_pools;
-				}
-				ventry.pools = pools;
-				ventry.remote_addr_copy = li_sockaddr_dup(vr->coninfo->remote_addr);
-				g_array_append_val(vr_ip_pools, ventry);
+			GArray *vr_ip_pools = (GArray*) g_ptr_array_index(vr->plugin_ctx, pools->plugin_id);
+			vr_ip_pools_entry ventry;
+
+			/* the connection might already use the pool from a previous request, but
+			 * this request needs its own reference on the entry to keep sharing it
+			 */
+			li_throttle_add_pool(vr->wrk, state, entry->pool);
+
+			if (NULL == vr_ip_pools) {
+				vr_ip_pools = g_array_new(FALSE, TRUE, sizeof(vr_ip_pools_entry));
+				g_ptr_array_index(vr->plugin_ctx, pools->plugin_id) = vr_ip_pools;
 			}
+			ventry.pools = pools;
+			ventry.remote_addr_copy = li_sockaddr_dup(vr->coninfo->remote_addr);
+			g_array_append_val(vr_ip_pools, ventry);
 		}
 	}
 
-- 
2.43.0


From 9c05b5620a1840ad76a1d3e8d3d2ec840de45b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:33 +0000
Subject: [PATCH 37/92] fix: deflate: abort the response if the source failed

---
 src/modules/mod_deflate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index 4c77772..fcb25d5 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -156,7 +156,8 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	int rc;
 
 	if (NULL == f->in) {
-		f->out->is_closed = TRUE;
+		/* didn't handle f->in->is_closed? abort forwarding */
+		if (!f->out->is_closed) li_stream_reset(&f->stream);
 		return LI_HANDLER_GO_ON;
 	}
 
-- 
2.43.0


From 56de8f9551bacbe796b334385a8bd2e99ce743f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:33 +0000
Subject: [PATCH 38/92] fix: deflate: parse Accept-Encoding, don't use
 encodings the client rejected

---
 src/modules/mod_deflate.c | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index fcb25d5..e4ab374 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -503,14 +503,40 @@ static gboolean cached_handle_etag(liVRequest *vr, gboolean debug, liHttpHeader
 	return FALSE;
 }
 
+/* parse comma separated list of encodings, ignores entries with "q=0" */
 static guint header_to_encoding_mask(const gchar *s) {
 	guint encoding_mask = 0, i;
 
-	for (i = 1; encoding_names[i]; i++) {
-		const gchar *p = strstr(s, encoding_names[i]);
-		if (NULL != p && (p == s || p[-1] == ' ' || p[-1] == ',')) {
-			encoding_mask |= 1 << i;
+	while ('\0' != *s) {
+		const gchar *p, *end;
+		gsize len;
+
+		s += strspn(s, ", \t");
+		len = strcspn(s, ",; \t");
+		end = s + strcspn(s, ",");
+
+		for (i = 1; encoding_names[i]; i++) {
+			if (strlen(encoding_names[i]) == len && 0 == g_ascii_strncasecmp(s, encoding_names[i], len)) break;
 		}
+
+		if (encoding_names[i]) {
+			gboolean rejected = FALSE;
+
+			for (p = s + len; p < end && !rejected; ) {
+				p += strspn(p, "; \t");
+				if (('q' == p[0] || 'Q' == p[0]) && '=' == p[1] && '0' == p[2]) {
+					/* "0", "0.", "0.0", "0.00", "0.000" */
+					p += 3;
+					if ('.' == *p) p += 1 + strspn(p + 1, "0");
+					rejected = (p >= end || NULL != strchr("; \t", *p));
+				}
+				p += strcspn(p, ",;");
+			}
+
+			if (!rejected) encoding_mask |= 1 << i;
+		}
+
+		s = end;
 	}
 
 	return encoding_mask;
-- 
2.43.0


From 391d55a9d77b6769316375f0ccd1c721e073cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:53 +0000
Subject: [PATCH 39/92] fix: cache_disk_etag: don't log through a finished
 request if the rename fails

---
 src/modules/mod_cache_disk_etag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_cache_disk_etag.c b/src/modules/mod_cache_disk_etag.c
index 7d29815..4d429e1 100644
--- a/src/modules/mod_cache_disk_etag.c
+++ b/src/modules/mod_cache_disk_etag.c
@@ -105,7 +105,7 @@ static void cache_etag_file_finish(liVRequest *vr, cache_etag_file *cfile) {
 	close(cfile->fd);
 	cfile->fd = -1;
 	if (-1 == rename(cfile->tmpfilename->str, cfile->filename->str)) {
-		VR_ERROR(vr, "Couldn't move temporary cache file '%s': '%s'", cfile->tmpfilename->str, g_strerror(errno));
+		if (NULL != vr) VR_ERROR(vr, "Couldn't move temporary cache file '%s': '%s'", cfile->tmpfilename->str, g_strerror(errno));
 		unlink(cfile->tmpfilename->str);
 	}
 	cache_etag_file_free(cfile);
-- 
2.43.0


From bfab7d6726d991a55c923d40331616d6323391e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:15 +0000
Subject: [PATCH 40/92] fix: memcached: detach the event watcher from the loop
 if the connection is freed while not connected

---
 src/common/memcached.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 80894cc..607f5f6 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -814,9 +814,9 @@ static void li_memcached_con_free(liMemcachedCon* con) {
 
 	if (-1 != li_event_io_fd(&con->con_watcher)) {
 		close(li_event_io_fd(&con->con_watcher));
-		li_event_clear(&con->con_watcher);
 		con->fd = -1;
 	}
+	li_event_clear(&con->con_watcher);
 
 	send_queue_reset(&con->out);
 	cancel_all_requests(con);
-- 
2.43.0


From ef3b1a07537d606e5d12a9f52cdc21f538214321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:15 +0000
Subject: [PATCH 41/92] fix: memcached: don't trust the size in a VALUE
 response (negative or huge sizes crashed the server)

---
 src/common/memcached.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 607f5f6..a8136b0 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -26,6 +26,8 @@ GQuark li_memcached_error_quark(void) {
 }
 
 #define BUFFER_CHUNK_SIZE 4*1024
+/* memcached doesn't allow items larger than this either */
+#define MAX_ITEM_SIZE (1024*1024*1024)
 
 typedef struct int_request int_request;
 typedef enum {
@@ -609,6 +611,7 @@ static void handle_read(liMemcachedCon *con) {
 	case REQ_GET:
 		if (!con->get_have_header) {
 			char *pos, *next;
+			gint64 data_size;
 
 			/* wait for header line */
 			if (!try_read_line(con)) return;
@@ -650,8 +653,9 @@ static void handle_read(liMemcachedCon *con) {
 
 			/* <bytes> */
 			pos = next + 1;
-			con->get_data_size = g_ascii_strtoll(pos, &next, 10);
-			if (pos == next) goto req_get_header_error;
+			data_size = g_ascii_strtoll(pos, &next, 10);
+			if (pos == next || data_size < 0 || data_size > MAX_ITEM_SIZE) goto req_get_header_error;
+			con->get_data_size = data_size;
 
 			/* [<cas unique>] */
 			if (' ' == *next) {
-- 
2.43.0


From 30747f12eb2282101b22c959175924283afa2768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:15 +0000
Subject: [PATCH 42/92] fix: memcached: don't accept a value for another key

---
 src/common/memcached.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index a8136b0..63c151e 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -645,6 +645,7 @@ static void handle_read(liMemcachedCon *con) {
 			if (NULL == next) goto req_get_header_error;
 
 			con->curitem.key = g_string_new_len(pos, next - pos);
+			if (!g_string_equal(con->curitem.key, cur->key)) goto req_get_header_error;
 
 			/* <flags> */
 			pos = next + 1;
-- 
2.43.0


From 624ca413b9c3c2a7d73b1ea5bc2108d01452cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:15 +0000
Subject: [PATCH 43/92] fix: memcached: wait for the line end after the data
 block of a value if it arrives separately

---
 src/common/memcached.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 63c151e..31fefd6 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -59,7 +59,7 @@ struct liMemcachedCon {
 
 	/* GET */
 	gsize get_data_size;
-	gboolean get_have_header;
+	gboolean get_have_header, get_have_data;
 };
 
 struct int_request {
@@ -601,6 +601,7 @@ static void handle_read(liMemcachedCon *con) {
 		case REQ_GET:
 			con->get_data_size = 0;
 			con->get_have_header = FALSE;
+			con->get_have_data = FALSE;
 			break;
 		case REQ_SET:
 			break;
@@ -681,9 +682,10 @@ req_get_header_error:
 
 req_get_header_done: ;
 		}
-		if (NULL == con->data || con->data->used < con->get_data_size) {
+		if (!con->get_have_data) {
 			/* wait for data */
 			if (!try_read_data(con, con->get_data_size)) return;
+			con->get_have_data = TRUE;
 		}
 		/* wait for END\r\n */
 		if (!try_read_line(con)) return;
-- 
2.43.0


From 9480419d27714d403b000a1752c01b76e9d3e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:02 +0000
Subject: [PATCH 44/92] fix: memcached: don't abort a connection attempt in
 progress when another request comes in

---
 src/common/memcached.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/memcached.c b/src/common/memcached.c
index 31fefd6..4a93344 100644
--- a/src/common/memcached.c
+++ b/src/common/memcached.c
@@ -343,6 +343,8 @@ static void memcached_connect(liMemcachedCon *con) {
 			err = errno;
 		}
 #endif
+		if (0 == err) return; /* still connecting */
+
 		g_clear_error(&con->err);
 		g_set_error(&con->err, LI_MEMCACHED_ERROR, LI_MEMCACHED_CONNECTION, "Couldn't connect socket to '%s': %s",
 			li_sockaddr_to_string(con->addr, con->tmpstr, TRUE)->str,
-- 
2.43.0


From 08c98afb72fe730cb52e3321c56721b069dad2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:52 +0000
Subject: [PATCH 45/92] fix: balance: a nested balancer without usable backend
 passes the request back to the outer one

---
 src/modules/mod_balance.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_balance.c b/src/modules/mod_balance.c
index fef48d3..e3e3eb1 100644
--- a/src/modules/mod_balance.c
+++ b/src/modules/mod_balance.c
@@ -329,6 +329,10 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 		} else {
 			li_vrequest_backend_overloaded(vr);
 		}
+
+		g_mutex_unlock(b->lock);
+
+		return LI_HANDLER_GO_ON;
 	}
 
 	/* don't backlog scheduled requests */
@@ -406,7 +410,7 @@ static liHandlerResult balancer_act_select(liVRequest *vr, gboolean backlog_prov
 			_balancer_backlog_update_watcher(vr->wrk, b);
 		}
 
-		if (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit) {
+		if (!backlog_provided && (-1 == b->backlog_limit || (gint)b->backlog.length < b->backlog_limit)) {
 			_balancer_context_backlog_push(b, context, vr);
 
 			g_mutex_unlock(b->lock);
-- 
2.43.0


From 180b1d5338de3ff0b7b8cefef91e928cd419d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:05 +0000
Subject: [PATCH 46/92] fix: virtualrequest: don't crash if an output filter
 fails while it is being connected

---
 src/main/virtualrequest.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index 6e932f3..b298d80 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -542,7 +542,8 @@ void li_vrequest_state_machine(liVRequest *vr) {
 			if (NULL != vr->direct_out) vr->direct_out->is_closed = TRUE; /* make sure this is closed for direct responses */
 			if (NULL != vr->filters_out_last) {
 				li_stream_connect(vr->backend_source, vr->filters_out_first);
-				li_stream_connect(vr->filters_out_last, vr->coninfo->resp);
+				/* a filter failing on the first data might have reset the vrequest (and released the filters) */
+				if (LI_VRS_WRITE_CONTENT == vr->state) li_stream_connect(vr->filters_out_last, vr->coninfo->resp);
 			} else {
 				/* no filters */
 				li_stream_connect(vr->backend_source, vr->coninfo->resp);
-- 
2.43.0


From bc1bbf98560a23cb17c5f9617a9b7676648d6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 47/92] fix: angel: fail to spawn an instance instead of
 crashing if the stderr pipe cannot be created

---
 src/angel/angel_proc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_proc.c b/src/angel/angel_proc.c
index b1c3e2e..f2a9a4e 100644
--- a/src/angel/angel_proc.c
+++ b/src/angel/angel_proc.c
@@ -142,8 +142,12 @@ liProc* li_proc_new(liServer *srv, gchar **args, gchar **env, uid_t uid, gid_t g
 	proc = g_slice_new0(liProc);
 	proc->srv = srv;
 	proc->child_pid = -1;
-	proc->epipe = li_error_pipe_new(srv, proc_epipe_cb, proc);
 	proc->appname = g_strdup(li_remove_path(args[0]));
+	proc->epipe = li_error_pipe_new(srv, proc_epipe_cb, proc);
+	if (NULL == proc->epipe) {
+		li_proc_free(proc);
+		return NULL;
+	}
 
 	switch (pid = fork()) {
 	case 0:
@@ -216,7 +220,7 @@ liProc* li_proc_new(liServer *srv, gchar **args, gchar **env, uid_t uid, gid_t g
 }
 
 void li_proc_free(liProc *proc) {
-	li_error_pipe_free(proc->epipe);
+	if (NULL != proc->epipe) li_error_pipe_free(proc->epipe);
 	g_free(proc->appname);
 	g_slice_free(liProc, proc);
 }
-- 
2.43.0


From 10206da3948d87ecaa2e16d665ae61d8ff425d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:11 +0000
Subject: [PATCH 48/92] fix: angel: clean up after failing to spawn an instance
 and finish it, so a later SIGHUP still works

---
 src/angel/angel_server.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index cd903cd..6100c34 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -168,10 +168,18 @@ static void instance_spawn_setup(gpointer ctx) {
 	dup2(STDERR_FILENO, STDOUT_FILENO);
 }
 
+/* same handling as for an instance which dies before reaching any state */
+static void instance_spawn_failed(liInstance *i) {
+	ERROR(i->srv, "%s", "spawning instance failed, not restarting");
+	i->s_dest = LI_INSTANCE_FINISHED;
+	li_instance_state_reached(i, LI_INSTANCE_FINISHED);
+}
+
 static void instance_spawn(liInstance *i) {
 	int confd[2];
 	if (-1 == socketpair(AF_UNIX, SOCK_STREAM, 0, confd)) {
 		ERROR(i->srv, "socketpair error, cannot spawn instance: %s", g_strerror(errno));
+		instance_spawn_failed(i);
 		return;
 	}
 	li_fd_init(confd[0]);
@@ -181,7 +189,13 @@ static void instance_spawn(liInstance *i) {
 	i->proc = li_proc_new(i->srv, i->ic->cmd, i->ic->env, i->ic->uid, i->ic->gid,
 		i->ic->username != NULL ? i->ic->username->str : NULL, i->ic->rlim_core, i->ic->rlim_nofile, instance_spawn_setup, confd);
 
-	if (!i->proc) return;
+	if (!i->proc) {
+		close(confd[1]);
+		li_angel_connection_free(i->acon);
+		i->acon = NULL;
+		instance_spawn_failed(i);
+		return;
+	}
 
 	i->pid = i->proc->child_pid;
 	close(confd[1]);
@@ -284,6 +298,9 @@ void li_instance_set_state(liInstance *i, liInstanceState s) {
 void li_instance_state_reached(liInstance *i, liInstanceState s) {
 	GError *error = NULL;
 
+	/* reaching a state might finish and release the instance */
+	li_instance_acquire(i);
+
 	i->s_cur = s;
 	switch (s) {
 	case LI_INSTANCE_DOWN:
@@ -333,7 +350,8 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 			ERROR(i->srv, "%s", "Replacing instance failed, continue old instance");
 			li_instance_set_state(i->replace, LI_INSTANCE_RUNNING);
 
-			li_instance_unset_replace(i->replace, i);
+			/* spawning the old instance again might have failed, which ends the replacement too */
+			if (i->replace) li_instance_unset_replace(i->replace, i);
 		} else if (i->s_dest == LI_INSTANCE_FINISHED) {
 			if (i->replace_by) {
 				INFO(i->srv, "instance[%i] replaced by instance[%i]", i->pid, i->replace_by->pid);
@@ -357,6 +375,8 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 	} else {
 		li_angel_plugin_instance_reached_state(i->srv, i, s);
 	}
+
+	li_instance_release(i);
 }
 
 void li_instance_release(liInstance *i) {
-- 
2.43.0


From 1fb809bc498909907055c7257e6adcff74011f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 49/92] fix: angel: handle state changes of an instance whose
 control connection is already closed

---
 src/angel/angel_server.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index 6100c34..5a7c7b6 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -242,6 +242,15 @@ static void li_instance_unset_replace(liInstance *oldi, liInstance *newi) {
 	li_instance_release(newi);
 }
 
+static void instance_send_command(liInstance *i, const gchar *action, gsize action_len, GError **err) {
+	if (NULL == i->acon) {
+		/* connection broke, but the instance hasn't been reaped yet */
+		g_set_error(err, LI_ANGEL_CONNECTION_ERROR, LI_ANGEL_CONNECTION_CLOSED, "connection already closed");
+		return;
+	}
+	li_angel_send_simple_call(i->acon, CONST_STR_LEN("core"), action, action_len, NULL, err);
+}
+
 void li_instance_set_state(liInstance *i, liInstanceState s) {
 	if (i->s_dest == s) return;
 	switch (s) {
@@ -266,13 +275,13 @@ void li_instance_set_state(liInstance *i, liInstanceState s) {
 		case LI_INSTANCE_SUSPENDING:
 			break; /* cannot be set */
 		case LI_INSTANCE_WARMUP:
-			li_angel_send_simple_call(i->acon, CONST_STR_LEN("core"), CONST_STR_LEN("warmup"), NULL, &error);
+			instance_send_command(i, CONST_STR_LEN("warmup"), &error);
 			break;
 		case LI_INSTANCE_SUSPENDED:
-			li_angel_send_simple_call(i->acon, CONST_STR_LEN("core"), CONST_STR_LEN("suspend"), NULL, &error);
+			instance_send_command(i, CONST_STR_LEN("suspend"), &error);
 			break;
 		case LI_INSTANCE_RUNNING:
-			li_angel_send_simple_call(i->acon, CONST_STR_LEN("core"), CONST_STR_LEN("run"), NULL, &error);
+			instance_send_command(i, CONST_STR_LEN("run"), &error);
 			break;
 		case LI_INSTANCE_FINISHED:
 			if (i->proc) {
@@ -322,11 +331,11 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 			break;
 		case LI_INSTANCE_WARMUP:
 			/* make sure we move to SILENT after we spawned the instance */
-			li_angel_send_simple_call(i->acon, CONST_STR_LEN("core"), CONST_STR_LEN("warmup"), NULL, &error);
+			instance_send_command(i, CONST_STR_LEN("warmup"), &error);
 			break;
 		case LI_INSTANCE_RUNNING:
 			/* make sure we move to RUNNING after we spawned the instance */
-			li_angel_send_simple_call(i->acon, CONST_STR_LEN("core"), CONST_STR_LEN("run"), NULL, &error);
+			instance_send_command(i, CONST_STR_LEN("run"), &error);
 			break;
 		case LI_INSTANCE_SUSPENDING:
 		case LI_INSTANCE_FINISHED:
-- 
2.43.0


From 7b94f9486db9b4c36ded2ad962aadd3280ca32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 50/92] fix: angel: do not run the replacement when the old
 instance is only starting

---
 src/angel/angel_server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index 5a7c7b6..a292a52 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -321,7 +321,8 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 		}
 		break;
 	case LI_INSTANCE_SUSPENDED:
-		if (i->replace_by && i->replace_by->s_dest == LI_INSTANCE_WARMUP) {
+		/* only if the instance was stopped; it also passes this state while starting */
+		if (i->s_dest == LI_INSTANCE_FINISHED && i->replace_by && i->replace_by->s_dest == LI_INSTANCE_WARMUP) {
 			li_instance_set_state(i->replace_by, LI_INSTANCE_RUNNING);
 		}
 		switch (i->s_dest) {
-- 
2.43.0


From 66dad513d4acbcd467580b203a97c0f54bc98275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 51/92] fix: angel: replacing an instance which already
 finished has to run the new instance

---
 src/angel/angel_server.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index a292a52..b8b41e6 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -345,8 +345,13 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 		break;
 	case LI_INSTANCE_WARMUP:
 		if (i->replace) {
-			/* stop old instance */
-			li_instance_set_state(i->replace, LI_INSTANCE_FINISHED);
+			if (LI_INSTANCE_FINISHED == i->replace->s_cur) {
+				/* old instance is already gone */
+				li_instance_state_reached(i->replace, LI_INSTANCE_FINISHED);
+			} else {
+				/* stop old instance */
+				li_instance_set_state(i->replace, LI_INSTANCE_FINISHED);
+			}
 		}
 		break;
 	case LI_INSTANCE_RUNNING:
-- 
2.43.0


From e91f0c957b38985f7b9624304e3f3c4112b90f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 52/92] fix: angel: stop both instances on shutdown while an
 instance is being replaced

---
 include/lighttpd/angel_server.h |  1 +
 src/angel/angel_plugin_core.c   | 11 +++++++++--
 src/angel/angel_server.c        |  2 ++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/lighttpd/angel_server.h b/include/lighttpd/angel_server.h
index cf2f9ad..50acc71 100644
--- a/include/lighttpd/angel_server.h
+++ b/include/lighttpd/angel_server.h
@@ -56,6 +56,7 @@ struct liServer {
 	liLog log;
 
 	gboolean one_shot; /* don't restart instance if it goes down */
+	gboolean stopping; /* all instances have to finish now */
 };
 
 struct liInstanceResource {
diff --git a/src/angel/angel_plugin_core.c b/src/angel/angel_plugin_core.c
index 5ca7254..f310d66 100644
--- a/src/angel/angel_plugin_core.c
+++ b/src/angel/angel_plugin_core.c
@@ -968,9 +968,16 @@ static void core_stop(liServer *srv, liPlugin *p) {
 	UNUSED(srv);
 
 	if (config->inst) {
-		li_instance_set_state(config->inst, LI_INSTANCE_FINISHED);
-		li_instance_release(config->inst);
+		liInstance *inst = config->inst, *newi = inst->replace_by;
 		config->inst = NULL;
+		if (newi) {
+			/* replacing the instance is still in progress */
+			li_instance_acquire(newi);
+			li_instance_set_state(newi, LI_INSTANCE_FINISHED);
+			li_instance_release(newi);
+		}
+		li_instance_set_state(inst, LI_INSTANCE_FINISHED);
+		li_instance_release(inst);
 	}
 }
 
diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index b8b41e6..077cb04 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -46,6 +46,7 @@ void li_server_stop(liServer *srv) {
 	li_event_stop(&srv->sig_w_INT);
 	li_event_stop(&srv->sig_w_TERM);
 
+	srv->stopping = TRUE;
 	li_plugins_stop(srv);
 
 	li_event_loop_end(&srv->loop);
@@ -253,6 +254,7 @@ static void instance_send_command(liInstance *i, const gchar *action, gsize acti
 
 void li_instance_set_state(liInstance *i, liInstanceState s) {
 	if (i->s_dest == s) return;
+	if (i->srv->stopping && LI_INSTANCE_FINISHED != s) return;
 	switch (s) {
 	case LI_INSTANCE_DOWN:
 	case LI_INSTANCE_SUSPENDING:
-- 
2.43.0


From 32fa6351fe1ce32ff44ae464f7cfe797bb22faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:39 +0000
Subject: [PATCH 53/92] fix: angel: keep the old instance if both it and its
 replacement cannot be spawned

---
 src/angel/angel_plugin_core.c | 2 +-
 src/angel/angel_server.c      | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/angel/angel_plugin_core.c b/src/angel/angel_plugin_core.c
index f310d66..88073de 100644
--- a/src/angel/angel_plugin_core.c
+++ b/src/angel/angel_plugin_core.c
@@ -1018,7 +1018,7 @@ static void core_instance_replaced(liServer *srv, liPlugin *p, liInstance *oldi,
 	plugin_config *config = (plugin_config*) p->data;
 	UNUSED(srv);
 
-	if (oldi == config->inst && LI_INSTANCE_FINISHED == oldi->s_cur) {
+	if (oldi == config->inst && LI_INSTANCE_FINISHED == oldi->s_cur && LI_INSTANCE_FINISHED != newi->s_cur) {
 		li_instance_acquire(newi);
 		config->inst = newi;
 		li_instance_release(oldi);
diff --git a/src/angel/angel_server.c b/src/angel/angel_server.c
index 077cb04..46aa3ad 100644
--- a/src/angel/angel_server.c
+++ b/src/angel/angel_server.c
@@ -367,10 +367,9 @@ void li_instance_state_reached(liInstance *i, liInstanceState s) {
 			ERROR(i->srv, "%s", "Replacing instance failed, continue old instance");
 			li_instance_set_state(i->replace, LI_INSTANCE_RUNNING);
 
-			/* spawning the old instance again might have failed, which ends the replacement too */
-			if (i->replace) li_instance_unset_replace(i->replace, i);
+			li_instance_unset_replace(i->replace, i);
 		} else if (i->s_dest == LI_INSTANCE_FINISHED) {
-			if (i->replace_by) {
+			if (i->replace_by && i->replace_by->s_cur != LI_INSTANCE_FINISHED) {
 				INFO(i->srv, "instance[%i] replaced by instance[%i]", i->pid, i->replace_by->pid);
 				if (i->replace_by->s_dest == LI_INSTANCE_WARMUP) {
 					li_instance_set_state(i->replace_by, LI_INSTANCE_RUNNING);
-- 
2.43.0


From 8639b5a8ddf37a356ba3b259f064fbbeefe1be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 54/92] fix: connection upgrade: forward data the client sent
 before the upgrade to the backend, don't send backend input to the client

---
 src/main/connection.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 3d3802d..9714bc2 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -678,13 +678,11 @@ static void mainvr_connection_upgrade(liVRequest *vr, liStream *backend_drain, l
 
 	li_vrequest_reset(con->mainvr, TRUE);
 
-	if (NULL != con->in.source) {
-		li_chunkqueue_steal_all(con->out.out, backend_drain->out);
-	}
 	con->info.out_queue_length = con->out.out->length;
 
 	li_stream_notify(&con->out);
-	li_stream_notify(&con->in);
+	/* forward data the client already sent after the request */
+	li_stream_again_later(&con->in);
 }
 
 static const liConCallbacks con_callbacks = {
-- 
2.43.0


From 019554918896a638f6cacafc32cef7db39d66432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:42 +0000
Subject: [PATCH 55/92] fix: fastcgi: don't reopen stdin for an upgrade if the
 backend already ended the request

---
 src/modules/fastcgi_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 86dfb60..8dcfa75 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -446,8 +446,8 @@ static void fastcgi_stream_out(liStream *stream, liStreamEvent event) {
 		break;
 	case LI_STREAM_CONNECTED_SOURCE:
 		/* support Connection: Upgrade by reopening stdin. not standard compliant,
-		 * but the backend asked for it :) */
-		ctx->stdin_closed = FALSE;
+		 * but the backend asked for it :) (don't reopen if the backend already finished the request) */
+		ctx->stdin_closed = ctx->request_done;
 		break;
 	case LI_STREAM_DISCONNECTED_SOURCE:
 		if (!ctx->stdin_closed) {
-- 
2.43.0


From 693d1f4a6d3c2c31a6900c90fd64bf6f8d23c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 56/92] fix: stat cache: support directory listings when the
 stat cache is disabled (stat_cache.ttl 0)

---
 src/main/stat_cache.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/stat_cache.c b/src/main/stat_cache.c
index 4089804..54beef5 100644
--- a/src/main/stat_cache.c
+++ b/src/main/stat_cache.c
@@ -228,6 +228,22 @@ liHandlerResult li_stat_cache_get_dirlist(liVRequest *vr, GString *path, liStatC
 	guint i;
 
 	sc = vr->wrk->stat_cache;
+
+	if (NULL == sc) {
+		/* stat cache is disabled: blocking lookup, entry is only used by this vrequest */
+		sce = stat_cache_entry_new(NULL, path);
+		sce->type = STAT_CACHE_ENTRY_DIR;
+		sce->cached = FALSE;
+
+		li_stat_cache_entry_acquire(vr, sce); /* assign sce to vr */
+		stat_cache_entry_release(sce); /* not in any cache: drop initial reference */
+
+		stat_cache_run(sce);
+
+		*result = sce;
+		return LI_HANDLER_GO_ON;
+	}
+
 	sce = g_hash_table_lookup(sc->dirlists, path);
 
 	if (sce) {
-- 
2.43.0


From b4f61729e7a7664b69d0f94e3e13e94ae40e1f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 57/92] fix: mod_dirlist: only include HEADER.txt/README.txt if
 include-header/include-readme is set

---
 src/modules/mod_dirlist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 2a99e6b..5b35e06 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -444,7 +444,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		}
 		li_g_string_append_len(listing, CONST_STR_LEN(html_header_end));
 
-		try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
+		if (dd->include_header) try_append_file(vr, &listing, "HEADER.txt", dd->encode_header);
 
 		g_string_append_printf(listing, html_table_start, vr->request.uri.path->str);
 
@@ -526,7 +526,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 
 		li_g_string_append_len(listing, CONST_STR_LEN(html_table_end));
 
-		try_append_file(vr, &listing, "README.txt", dd->encode_readme);
+		if (dd->include_readme) try_append_file(vr, &listing, "README.txt", dd->encode_readme);
 
 		if (dd->include_sort) {
 			li_g_string_append_len(listing, CONST_STR_LEN(javascript_sort));
-- 
2.43.0


From 96b028b8979464210cad5eea35c5ae6cd04cedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 58/92] fix: mod_dirlist: compare the file name for
 hide-header/hide-readme, not the GString struct

---
 src/modules/mod_dirlist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 5b35e06..206ad65 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -421,9 +421,9 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 				if (dd->hide_directories) continue;
 				g_array_append_val(directories, i);
 			} else {
-				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path, "HEADER.txt")) {
+				if ((dd->include_header || dd->hide_header) && g_str_equal(sced->path->str, "HEADER.txt")) {
 					if (dd->hide_header) continue;
-				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path, "README.txt")) {
+				} else if ((dd->include_readme || dd->hide_readme) && g_str_equal(sced->path->str, "README.txt")) {
 					if (dd->hide_readme) continue;
 				}
 				g_array_append_val(files, i);
-- 
2.43.0


From d274e21bf0a2d1e8c6da061e0c0f250d2bcdb3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:50 +0000
Subject: [PATCH 59/92] fix: mod_dirlist: don't access the stat cache entry
 after releasing it

---
 src/modules/mod_dirlist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 206ad65..66dcc30 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -335,7 +335,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 			vr->response.http_status = 403;
 			return LI_HANDLER_GO_ON;
 		default:
-			VR_ERROR(vr, "stat('%s') failed: %s", sce->data.path->str, g_strerror(sce->data.err));
+			VR_ERROR(vr, "stat('%s') failed: %s", vr->physical.path->str, g_strerror(e));
 			if (!li_vrequest_handle_direct(vr)) return LI_HANDLER_ERROR;
 			vr->response.http_status = 500;
 			return LI_HANDLER_GO_ON;
-- 
2.43.0


From c83ae37b67430019d93cc29b29bd11df51336d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:25 +0000
Subject: [PATCH 60/92] fix: mod_auth: retry loading a changed password file on
 next check if it couldn't be loaded

---
 src/modules/mod_auth.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index 89c66e8..747ac31 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -142,21 +142,25 @@ static AuthFileData* auth_file_get_data(liWorker *wrk, AuthFile *f) {
 		struct stat st;
 		f->next_check = now + f->ttl;
 
-		if (-1 != stat(f->path->str, &st) && st.st_mtime >= f->last_stat - 1) {
-			g_mutex_unlock(f->lock);
+		if (-1 != stat(f->path->str, &st)) {
+			if (st.st_mtime >= f->last_stat - 1) {
+				g_mutex_unlock(f->lock);
 
-			/* update without lock held */
-			data = auth_file_load(wrk->srv, f);
+				/* update without lock held */
+				data = auth_file_load(wrk->srv, f);
 
-			g_mutex_lock(f->lock);
+				g_mutex_lock(f->lock);
 
-			if (NULL != data) {
-				auth_file_data_release(f->data);
-				f->data = data;
+				if (NULL != data) {
+					auth_file_data_release(f->data);
+					f->data = data;
+					f->last_stat = now;
+				}
+				/* else: failed to load the current file, try again on next check */
+			} else {
+				f->last_stat = now;
 			}
 		}
-
-		f->last_stat = now;
 	}
 
 	data = f->data;
-- 
2.43.0


From ea7742f3c4dd3f4606feaa6e982be47bca8116af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:25 +0000
Subject: [PATCH 61/92] fix: mod_auth: notice a password file replaced by a
 file with an older modification time

---
 src/modules/mod_auth.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index 747ac31..bdf1e6e 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -143,7 +143,8 @@ static AuthFileData* auth_file_get_data(liWorker *wrk, AuthFile *f) {
 		f->next_check = now + f->ttl;
 
 		if (-1 != stat(f->path->str, &st)) {
-			if (st.st_mtime >= f->last_stat - 1) {
+			/* ctime: renaming a file keeps its (perhaps old) mtime */
+			if (st.st_mtime >= f->last_stat - 1 || st.st_ctime >= f->last_stat - 1) {
 				g_mutex_unlock(f->lock);
 
 				/* update without lock held */
-- 
2.43.0


From 97be9cc4bb182bbf27a516d3ec933f8dd8ad7eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:13 +0000
Subject: [PATCH 62/92] fix: mod_auth: htdigest: a user can have entries for
 more than one realm

---
 src/modules/mod_auth.c | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/modules/mod_auth.c b/src/modules/mod_auth.c
index bdf1e6e..2a55b12 100644
--- a/src/modules/mod_auth.c
+++ b/src/modules/mod_auth.c
@@ -82,25 +82,26 @@ static AuthFileData* auth_file_load(liServer *srv, AuthFile *f) {
 				*c = '\0';
 				found_newline = TRUE;
 			} else if (':' == *c) {
-				if (NULL == password) {
+				if (f->has_realm && !found_realm) {
+					/* the key is user:realm, a user can be in more than one realm */
+					found_realm = TRUE;
+				} else if (NULL == password) {
 					password = c+1;
 					*c = '\0';
-				} else {
-					found_realm = TRUE;
 				}
 			} else if (found_newline) {
 				break;
 			}
 		}
 
-		if (!password) {
+		if (!password && !found_realm) {
 			/* missing delimiter for user:pass => bogus file */
 			ERROR(srv, "failed to parse auth file \"%s\", missing user:password delimiter", f->path->str);
 			goto cleanup_fail;
 		}
 
 		/* file is of type htdigest (user:realm:pass) */
-		if (f->has_realm && !found_realm) {
+		if (!password) {
 			/* missing delimiter for realm:pass => bogus file */
 			ERROR(srv, "failed to parse auth file \"%s\", missing realm:password delimiter", f->path->str);
 			goto cleanup_fail;
@@ -291,32 +292,22 @@ out:
 }
 
 static gboolean auth_backend_htdigest(liVRequest *vr, const GString *username, const GString *password, AuthBasicData *bdata, gboolean debug) {
-	const char *pass, *realm;
+	const char *pass;
+	GString *key = vr->wrk->tmp_str;
 	AuthFileData *afd = auth_file_get_data(vr->wrk, bdata->data);
 	GChecksum *md5sum;
 	gboolean res = FALSE;
 
 	if (NULL == afd) return FALSE;
 
-	/* unknown user? */
-	if (!(pass = g_hash_table_lookup(afd->users, username->str))) {
-		if (debug) {
-			VR_DEBUG(vr, "User \"%s\" not found", username->str);
-		}
-		goto out;
-	}
-
-	realm = pass;
-	pass = strchr(pass, ':');
-
-	/* no realm/wrong realm? */
-	if (NULL == pass || 0 != strncmp(realm, bdata->realm->str, bdata->realm->len)) {
+	/* unknown user in this realm? */
+	g_string_printf(key, "%s:%s", username->str, bdata->realm->str);
+	if (!(pass = g_hash_table_lookup(afd->users, key->str))) {
 		if (debug) {
-			VR_DEBUG(vr, "Realm for user \"%s\" doesn't match", username->str);
+			VR_DEBUG(vr, "User \"%s\" not found in realm \"%s\"", username->str, bdata->realm->str);
 		}
 		goto out;
 	}
-	pass++;
 
 	md5sum = g_checksum_new(G_CHECKSUM_MD5);
 	g_checksum_update(md5sum, GUSTR_LEN(username));
-- 
2.43.0


From 4e5647200d4f99f172e0666490249a7456269422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:25 +0000
Subject: [PATCH 63/92] fix: count the bytes of a connection's last transfer in
 the worker statistics

---
 src/main/connection.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 9714bc2..7baeb20 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -14,23 +14,25 @@ void li_connection_simple_tcp(liConnection **pcon, liIOStream *stream, gpointer
 
 	li_stream_simple_socket_io_cb_with_context(stream, event, context);
 
+	transfer_in = (NULL != stream->stream_in.out) ? stream->stream_in.out->bytes_in - transfer_in : 0;
+	transfer_out = (NULL != stream->stream_out.out) ? stream->stream_out.out->bytes_out - transfer_out : 0;
+
 	/* li_stream_simple_socket_io_cb_with_context might lead to *pcon == NULL */
 	con = *pcon;
 	if (NULL != con) {
-		if (NULL != stream->stream_in.out) {
-			transfer_in = stream->stream_in.out->bytes_in - transfer_in;
-			if (transfer_in > 0) {
-				li_connection_update_io_timeout(con);
-				li_vrequest_update_stats_in(con->mainvr, transfer_in);
-			}
+		if (transfer_in > 0) {
+			li_connection_update_io_timeout(con);
+			li_vrequest_update_stats_in(con->mainvr, transfer_in);
 		}
-		if (NULL != stream->stream_out.out) {
-			transfer_out = stream->stream_out.out->bytes_out - transfer_out;
-			if (transfer_out > 0) {
-				li_connection_update_io_timeout(con);
-				li_vrequest_update_stats_out(con->mainvr, transfer_out);
-			}
+		if (transfer_out > 0) {
+			li_connection_update_io_timeout(con);
+			li_vrequest_update_stats_out(con->mainvr, transfer_out);
 		}
+	} else {
+		/* connection is gone, but the data was transferred */
+		liWorker *wrk = li_worker_from_iostream(stream);
+		wrk->stats.bytes_in += transfer_in;
+		wrk->stats.bytes_out += transfer_out;
 	}
 
 	switch (event) {
-- 
2.43.0


From c70eb534ad1207000ac1e8fced237bc4fedd1cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:08 +0000
Subject: [PATCH 64/92] fix: keep a connection's count of unsent response bytes
 current

It was only updated when response data was queued and ignored the data already
handed to the socket stream, so mod_progress reported wrong 'sent' values.
---
 src/main/connection.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/connection.c b/src/main/connection.c
index 7baeb20..d993c30 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -5,6 +5,14 @@
 
 #define LI_CONNECTION_DEFAULT_CHUNKQUEUE_LIMIT (256*1024)
 
+/* response data that was not written to the network yet */
+static void connection_update_out_queue_length(liConnection *con) {
+	con->info.out_queue_length = con->out.out->length;
+	if (NULL != con->con_sock.raw_out && NULL != con->con_sock.raw_out->out) {
+		con->info.out_queue_length += con->con_sock.raw_out->out->length;
+	}
+}
+
 void li_connection_simple_tcp(liConnection **pcon, liIOStream *stream, gpointer *context, liIOStreamEvent event) {
 	liConnection *con;
 	goffset transfer_in = 0, transfer_out = 0;
@@ -20,6 +28,7 @@ void li_connection_simple_tcp(liConnection **pcon, liIOStream *stream, gpointer
 	/* li_stream_simple_socket_io_cb_with_context might lead to *pcon == NULL */
 	con = *pcon;
 	if (NULL != con) {
+		connection_update_out_queue_length(con);
 		if (transfer_in > 0) {
 			li_connection_update_io_timeout(con);
 			li_vrequest_update_stats_in(con->mainvr, transfer_in);
@@ -469,7 +478,7 @@ static void _connection_http_out_cb(liStream *stream, liStreamEvent event) {
 				li_stream_disconnect(stream);
 			}
 		}
-		con->info.out_queue_length = raw_out->length;
+		connection_update_out_queue_length(con);
 	}
 
 	li_stream_notify(stream);
@@ -680,7 +689,7 @@ static void mainvr_connection_upgrade(liVRequest *vr, liStream *backend_drain, l
 
 	li_vrequest_reset(con->mainvr, TRUE);
 
-	con->info.out_queue_length = con->out.out->length;
+	connection_update_out_queue_length(con);
 
 	li_stream_notify(&con->out);
 	/* forward data the client already sent after the request */
-- 
2.43.0


From 48a8616260394914ea9b0285611ea0b2ed342b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:08 +0000
Subject: [PATCH 65/92] fix: mod_progress reported a request size of 2^64-1 for
 chunked uploads

---
 src/modules/mod_progress.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/mod_progress.c b/src/modules/mod_progress.c
index afaecfa..94ceeff 100644
--- a/src/modules/mod_progress.c
+++ b/src/modules/mod_progress.c
@@ -107,7 +107,7 @@ static void progress_vrclose(liVRequest *vr, liPlugin *p) {
 	if (node) {
 		/* connection is being tracked, replace with tombstone */
 		node->vr = NULL;
-		node->request_size = vr->request.content_length;
+		node->request_size = MAX(0, vr->request.content_length); /* negative: not known */
 		node->response_size = vr->coninfo->resp->out->bytes_in;
 		node->bytes_in = vr->coninfo->req->out->bytes_in;
 		node->bytes_out = MAX(0, vr->coninfo->resp->out->bytes_in - vr->coninfo->out_queue_length);
@@ -178,7 +178,7 @@ static gpointer progress_collect_func(liWorker *wrk, gpointer fdata) {
 	if (node->vr) {
 		/* copy live data */
 		node_new->vr = node->vr;
-		node_new->request_size = node->vr->request.content_length;
+		node_new->request_size = MAX(0, node->vr->request.content_length);
 		node_new->response_size = (NULL != node->vr->backend_source) ? node->vr->backend_source->out->bytes_out : 0;
 		node_new->bytes_in = node->vr->coninfo->req->out->bytes_in;
 		node_new->bytes_out = MAX(0, node->vr->coninfo->resp->out->bytes_in - node->vr->coninfo->out_queue_length);
-- 
2.43.0


From c025bd9d8672c9e2202f6f9f1773e596f6f1b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 66/92] fix: [mod_gnutls] endless loop for client hello with
 further entries in the SNI list

After the first name was complete the parser stayed in the state reading
the (now empty) host name and never consumed the remaining bytes.
---
 src/modules/ssl_client_hello_parser.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/ssl_client_hello_parser.h b/src/modules/ssl_client_hello_parser.h
index 910b03d..9706c06 100644
--- a/src/modules/ssl_client_hello_parser.h
+++ b/src/modules/ssl_client_hello_parser.h
@@ -388,6 +388,8 @@ INLINE liSSLClientHelloParserResult _li_ssl_client_hello_parse(liSSLClientHelloP
 								context->sni_hostname_remaining -= take;
 								p += take;
 							}
+							if (0 == context->sni_hostname_remaining) context->sni_state = 2; /* next entry */
+							continue;
 						}
 					} /* while (p < extension_pe) -- sni extension subloop */
 				} /* while (p < client_hello_pe) -- extensions subloop */
-- 
2.43.0


From 5bd5f41ab2ea73b49800dbc070ff87de38f15bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 67/92] fix: [mod_openssl,mod_gnutls] continue reading after
 the 64k limit of one round

The data left in the encrypted input buffer was only looked at again when
new data arrived from the network; the end of an upload could be stuck.
---
 src/modules/gnutls_filter.c  | 3 +++
 src/modules/openssl_filter.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index ca3445c..f76c095 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -368,6 +368,9 @@ static void do_gnutls_read(liGnuTLSFilter *f) {
 		len += r;
 	} while (len < max_read);
 
+	/* there might be more data waiting for us, but no new event for it */
+	li_stream_again_later(&f->plain_source);
+
 out:
 	f_release(f);
 }
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index 24ec12d..9785182 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -388,6 +388,9 @@ static void do_ssl_read(liOpenSSLFilter *f) {
 		len += r;
 	} while (len < max_read);
 
+	/* there might be more data waiting for us, but no new event for it */
+	li_stream_again_later(&f->plain_source);
+
 out:
 	f_release(f);
 }
-- 
2.43.0


From 73b3d73076d0451abc9b35f12af2fd967c33471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:41 +0000
Subject: [PATCH 68/92] fix: [mod_gnutls] GNUTLS_E_AGAIN doesn't mean all input
 was consumed

gnutls also returns it after handling a record without application data
(e.g. a key update); a request following in the same read was not seen
until the client sent more data.
---
 src/modules/gnutls_filter.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index f76c095..c6cc67c 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -272,10 +272,16 @@ static void do_handle_error(liGnuTLSFilter *f, const char *gnutlsfunc, int r, gb
 
 static gboolean do_gnutls_handshake(liGnuTLSFilter *f, gboolean writing) {
 	int r;
+	off_t pending;
 
 	LI_FORCE_ASSERT(!f->initial_handshaked_finished);
 
-	r = gnutls_handshake(f->session);
+	do {
+		pending = f->crypt_drain.out->length;
+		r = gnutls_handshake(f->session);
+		/* gnutls may return GNUTLS_E_AGAIN after a record without (for now) useful content,
+		 * although there is more input waiting */
+	} while (GNUTLS_E_AGAIN == r && 0 < f->crypt_drain.out->length && f->crypt_drain.out->length < pending);
 	if (GNUTLS_E_SUCCESS <= r) {
 		f->initial_handshaked_finished = 1;
 		li_stream_acquire(&f->plain_source);
@@ -294,7 +300,7 @@ static void do_gnutls_read(liGnuTLSFilter *f) {
 	const ssize_t blocksize = 16*1024; /* 16k */
 	off_t max_read = 4 * blocksize; /* 64k */
 	ssize_t r;
-	off_t len = 0;
+	off_t len = 0, pending;
 	liChunkQueue *cq = f->plain_source.out;
 
 	f_acquire(f);
@@ -332,7 +338,12 @@ static void do_gnutls_read(liGnuTLSFilter *f) {
 		}
 		LI_FORCE_ASSERT(f->raw_in_buffer == buf);
 
+		pending = f->crypt_drain.out->length;
 		r = gnutls_record_recv(f->session, buf->addr + buf->used, buf->alloc_size - buf->used);
+		if (GNUTLS_E_AGAIN == r && 0 < f->crypt_drain.out->length && f->crypt_drain.out->length < pending) {
+			/* handled a record without application data (e.g. a key update), there is more input waiting */
+			continue;
+		}
 		if (r < 0) {
 			do_handle_error(f, "gnutls_record_recv", r, FALSE);
 			goto out;
-- 
2.43.0


From 43f167c1f14f62966fea157cd49ab58d207722b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:39 +0000
Subject: [PATCH 69/92] fix: [core] undo listening when a pending state
 transition is reverted

A worker ignored the effects of a pending transition if the next command
asked for the state it was still in: run + suspend before reaching warmup
left a suspended worker accepting connections, suspend + run before
reaching suspending left a running worker deaf.
---
 src/main/server.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/main/server.c b/src/main/server.c
index 1056239..e31927f 100644
--- a/src/main/server.c
+++ b/src/main/server.c
@@ -679,6 +679,7 @@ static liServerState li_server_next_state(liServer *srv) {
 static void li_server_start_transition(liServer *srv, liServerState state) {
 	guint i;
 	liServerStateWait sw_dummy;
+	liServerState old_wait_for = srv->state_wait_for;
 
 	DEBUG(srv, "Try reaching state: %s (dest: %s)", li_server_state_string(state), li_server_state_string(srv->dest_state));
 
@@ -694,6 +695,10 @@ static void li_server_start_transition(liServer *srv, liServerState state) {
 	case LI_SERVER_SUSPENDED:
 		if (srv->state == LI_SERVER_LOADING) {
 			li_plugins_prepare(srv);
+		} else if (LI_SERVER_SUSPENDING == srv->state && LI_SERVER_RUNNING == old_wait_for) {
+			/* was about to get back to RUNNING, i.e. already listening again */
+			li_server_stop_listen(srv);
+			li_plugins_stop_listen(srv);
 		}
 		break;
 	case LI_SERVER_WARMUP:
@@ -731,6 +736,26 @@ static void li_server_start_transition(liServer *srv, liServerState state) {
 	li_server_state_ready(srv, &sw_dummy);
 }
 
+/* a transition was started but its state isn't reached yet, and now we want to stay in the current state */
+static void li_server_abort_transition(liServer *srv) {
+	liServerState aborted_state = srv->state_wait_for;
+
+	srv->state_wait_for = srv->state;
+
+	switch (aborted_state) {
+	case LI_SERVER_WARMUP:
+		li_server_stop_listen(srv);
+		li_plugins_stop_listen(srv);
+		break;
+	case LI_SERVER_SUSPENDING:
+		li_server_start_listen(srv);
+		li_plugins_start_listen(srv);
+		break;
+	default:
+		break;
+	}
+}
+
 void li_server_goto_state(liServer *srv, liServerState state) {
 	if (srv->dest_state == LI_SERVER_DOWN || srv->dest_state == state) return; /* cannot undo this */
 
@@ -752,6 +777,8 @@ void li_server_goto_state(liServer *srv, liServerState state) {
 	if (srv->dest_state != srv->state) {
 		liServerState want_state = li_server_next_state(srv);
 		li_server_start_transition(srv, want_state);
+	} else if (srv->state_wait_for != srv->state) {
+		li_server_abort_transition(srv);
 	}
 }
 
-- 
2.43.0


From 962adf465480c67ab29f9045701627cf5ad18795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:42 +0000
Subject: [PATCH 70/92] fix: aborting a request before its response was
 complete leaked filters added so far

A chain of two or more filters is kept alive by the links between them. If the
request got reset before the chain was connected to the backend and the
connection nobody disconnected the filters again; mod_cache_disk_etag leaked
the temporary file and its descriptor.
---
 src/main/filter.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/main/filter.c b/src/main/filter.c
index d1f52c8..6e29dbb 100644
--- a/src/main/filter.c
+++ b/src/main/filter.c
@@ -16,10 +16,37 @@ void li_vrequest_filters_clear(liVRequest *vr) {
 	vr->filters = NULL;
 }
 
+/* a chain of filters which isn't connected to anything is kept alive only by the links between its
+ * filters; nobody else is going to disconnect them.
+ */
+static liStream* filter_chain_hold_unconnected(liStream *first, liStream *last) {
+	if (NULL == first || NULL != first->source || NULL != last->dest) return NULL;
+	li_stream_acquire(last);
+	return last;
+}
+
+static void filter_chain_unlink(liStream *last) {
+	while (NULL != last) {
+		liStream *source = last->source;
+		if (NULL != source) li_stream_acquire(source);
+		li_stream_disconnect(last);
+		li_stream_release(last);
+		last = source;
+	}
+}
+
 void li_vrequest_filters_reset(liVRequest *vr) {
+	/* request was aborted before the chains got connected */
+	liStream *in_last = filter_chain_hold_unconnected(vr->filters_in_first, vr->filters_in_last);
+	liStream *out_last = filter_chain_hold_unconnected(vr->filters_out_first, vr->filters_out_last);
+
 	while (vr->filters->len > 0) {
 		li_filter_stop(g_ptr_array_index(vr->filters, vr->filters->len - 1));
 	}
+
+	filter_chain_unlink(in_last);
+	filter_chain_unlink(out_last);
+
 	vr->filters_in_last = vr->filters_out_last = NULL;
 	vr->filters_in_first = vr->filters_out_first = NULL;
 }
-- 
2.43.0


From 3c9c7c8f606b9fc751b9aed7477c7afc8e8daafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:06 +0000
Subject: [PATCH 71/92] fix: io.buffer_in/io.buffer_out on a queue with data
 asserted later

li_chunkqueue_use_limit() created a limit without counting the memory
already in the queue; removing that data made the counter negative.
---
 src/main/chunk.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 3308d9e..11f4da1 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -449,7 +449,12 @@ void li_chunkqueue_free(liChunkQueue *cq) {
 }
 
 void li_chunkqueue_use_limit(liChunkQueue *cq, goffset limit) {
-	if (!cq->limit) cq->limit = li_cqlimit_new();
+	if (!cq->limit) {
+		/* the queue may already contain data: it has to be counted in the new limit */
+		liCQLimit *cql = li_cqlimit_new();
+		li_chunkqueue_set_limit(cq, cql);
+		li_cqlimit_release(cql);
+	}
 	li_cqlimit_set_limit(cq->limit, limit);
 }
 
-- 
2.43.0


From 63db88a921f1f0776e098bdc42b0acba164fe729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:52 +0000
Subject: [PATCH 72/92] fix: limits of the request and response streams were
 not applied to all of their queues

Setting a limit never passed on to the following streams, removing a limit
never to the preceding ones, and the limit for responses was set only for the
last stream of the backend: a fast client or backend could fill the memory
with data the other side didn't read.
---
 src/main/stream.c            | 9 +++++----
 src/main/virtualrequest.c    | 2 --
 src/modules/fastcgi_stream.c | 4 ++++
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/main/stream.c b/src/main/stream.c
index 447d44f..06e1bf3 100644
--- a/src/main/stream.c
+++ b/src/main/stream.c
@@ -195,8 +195,9 @@ void li_stream_attach(liStream *stream, liEventLoop *loop) {
 void li_stream_set_cqlimit(liStream *first, liStream *last, liCQLimit *limit) {
 	if (NULL != limit) li_cqlimit_acquire(limit);
 	if (NULL == first) {
-		while (NULL != last && NULL == last->out->limit) {
-			if (limit == last->out->limit) break;
+		while (NULL != last && limit != last->out->limit) {
+			/* only set missing limits; but always remove them if the new limit is NULL */
+			if (NULL != limit && NULL != last->out->limit) break;
 			li_chunkqueue_set_limit(last->out, limit);
 			if (NULL != last->cb) {
 				liStream *cur = last;
@@ -210,8 +211,8 @@ void li_stream_set_cqlimit(liStream *first, liStream *last, liCQLimit *limit) {
 		}
 	} else {
 		gboolean reached_last = FALSE;
-		while (NULL != first && !reached_last && NULL != first->out->limit) {
-			if (limit == first->out->limit) break;
+		while (NULL != first && !reached_last && limit != first->out->limit) {
+			if (NULL != limit && NULL != first->out->limit) break;
 			if (first == last) reached_last = TRUE;
 			li_chunkqueue_set_limit(first->out, limit);
 			if (NULL != first->cb) {
diff --git a/src/main/virtualrequest.c b/src/main/virtualrequest.c
index b298d80..4ec6b7d 100644
--- a/src/main/virtualrequest.c
+++ b/src/main/virtualrequest.c
@@ -414,8 +414,6 @@ void li_vrequest_indirect_connect(liVRequest *vr, liStream *backend_drain, liStr
 
 	vr->backend_source = backend_source;
 
-	li_chunkqueue_set_limit(backend_source->out, vr->coninfo->resp->out->limit);
-
 	li_vrequest_joblist_append(vr);
 }
 
diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 8dcfa75..71e1808 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -247,6 +247,10 @@ static void fastcgi_check_put(liFastCGIBackendContext *ctx) {
 	li_stream_set_cqlimit(&ctx->fcgi_out, NULL, NULL);
 
 	if (NULL != ctx->iostream) {
+		/* the socket streams might already be disconnected from fcgi_in / fcgi_out */
+		li_stream_set_cqlimit(NULL, &ctx->iostream->stream_in, NULL);
+		li_stream_set_cqlimit(&ctx->iostream->stream_out, NULL, NULL);
+
 		li_event_io_set_fd(&ctx->subcon->watcher, li_event_io_fd(&ctx->iostream->io_watcher));
 		li_event_set_keep_loop_alive(&ctx->iostream->io_watcher, FALSE);
 		LI_FORCE_ASSERT(NULL == ctx->iostream->stream_in.out->limit);
-- 
2.43.0


From 21c065c0e809caf04543b868d3ac791112113fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:52 +0000
Subject: [PATCH 73/92] fix: io.buffer_out didn't accept 0 (unlimited)

---
 src/main/plugin_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/plugin_core.c b/src/main/plugin_core.c
index e916202..87d0160 100644
--- a/src/main/plugin_core.c
+++ b/src/main/plugin_core.c
@@ -1730,7 +1730,7 @@ static liAction* core_buffer_out(liServer *srv, liWorker *wrk, liPlugin* p, liVa
 
 	limit = val->data.number;
 
-	if (limit < 0) {
+	if (limit <= 0) {
 		limit = 0; /* no limit */
 	} else if (limit < (16*1024)) {
 		ERROR(srv, "buffer %"G_GINT64_FORMAT" is too low (need at least 16 kb)", limit);
-- 
2.43.0


From 6f8002769f876211d99f0546fd1d728d3a655b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:24 +0000
Subject: [PATCH 74/92] fix: partly consumed chunks were counted completely for
 the chunkqueue limit

A few bytes waiting for the rest of a record could use up a small limit:
nothing was read anymore, so the record was never completed.
---
 src/main/chunk.c | 71 ++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 44 deletions(-)

diff --git a/src/main/chunk.c b/src/main/chunk.c
index 11f4da1..a8c1991 100644
--- a/src/main/chunk.c
+++ b/src/main/chunk.c
@@ -419,12 +419,26 @@ liChunkQueue* li_chunkqueue_new(void) {
 	return cq;
 }
 
+/* memory used by the part of the chunk which wasn't consumed yet */
+static goffset chunk_mem_length(liChunk *c) {
+	return (FILE_CHUNK == c->type) ? 0 : li_chunk_length(c);
+}
+
+/* memory accounting for moving data from one queue to another */
+static void cqlimit_move(liChunkQueue *out, liChunkQueue *in, goffset d) {
+	if (in->limit != out->limit) {
+		cqlimit_update(out, d);
+		cqlimit_update(in, -d);
+	} else {
+		out->mem_usage += d;
+		in->mem_usage -= d;
+	}
+}
+
 static void __chunk_free(gpointer _c, gpointer userdata) {
 	liChunk *c = (liChunk *)_c;
 	liChunkQueue *cq = (liChunkQueue*) userdata;
-	if (c->type == STRING_CHUNK) cqlimit_update(cq, - (goffset)c->data.str->len);
-	else if (c->type == MEM_CHUNK) cqlimit_update(cq, - (goffset)c->mem->len);
-	else if (c->type == BUFFER_CHUNK) cqlimit_update(cq, - (goffset)c->data.buffer.length);
+	cqlimit_update(cq, -chunk_mem_length(c));
 	chunk_free(cq, c);
 }
 
@@ -635,15 +649,12 @@ void li_chunkqueue_append_tempfile_fd(liChunkQueue *cq, GString *filename, off_t
 goffset li_chunkqueue_steal_len(liChunkQueue *out, liChunkQueue *in, goffset length) {
 	liChunk *c, *cnew;
 	GList* l;
-	goffset bytes = 0, meminbytes = 0, memoutbytes = 0;
+	goffset bytes = 0, membytes = 0;
 	goffset we_have;
 
 	while ( (NULL != (c = li_chunkqueue_first_chunk(in))) && length > 0 ) {
 		we_have = li_chunk_length(c);
 		if (!we_have) { /* remove empty chunks */
-			if (c->type == STRING_CHUNK) meminbytes -= c->data.str->len;
-			else if (c->type == MEM_CHUNK) meminbytes -= c->mem->len;
-			else if (c->type == BUFFER_CHUNK) meminbytes -= c->data.buffer.length;
 			chunk_free(in, c);
 			continue;
 		}
@@ -651,16 +662,7 @@ goffset li_chunkqueue_steal_len(liChunkQueue *out, liChunkQueue *in, goffset len
 			l = g_queue_pop_head_link(&in->queue);
 			g_queue_push_tail_link(&out->queue, l);
 			bytes += we_have;
-			if (c->type == STRING_CHUNK) {
-				meminbytes -= c->data.str->len;
-				memoutbytes += c->data.str->len;
-			} else if (c->type == MEM_CHUNK) {
-				meminbytes -= c->mem->len;
-				memoutbytes += c->mem->len;
-			} else if (c->type == BUFFER_CHUNK) {
-				meminbytes -= c->data.buffer.length;
-				memoutbytes += c->data.buffer.length;
-			}
+			membytes += chunk_mem_length(c);
 			length -= we_have;
 		} else { /* copy first part of a chunk */
 			cnew = chunk_new();
@@ -674,13 +676,13 @@ goffset li_chunkqueue_steal_len(liChunkQueue *out, liChunkQueue *in, goffset len
 				cnew->type = MEM_CHUNK;
 				cnew->mem = g_byte_array_sized_new(length);
 				g_byte_array_append(cnew->mem, (guint8*) c->data.str->str + c->offset, length);
-				memoutbytes += length;
+				membytes += length;
 				break;
 			case MEM_CHUNK:
 				cnew->type = MEM_CHUNK;
 				cnew->mem = g_byte_array_sized_new(length);
 				g_byte_array_append(cnew->mem, (guint8*) c->mem->data + c->offset, length);
-				memoutbytes += length;
+				membytes += length;
 				break;
 			case FILE_CHUNK:
 				cnew->type = FILE_CHUNK;
@@ -695,7 +697,7 @@ goffset li_chunkqueue_steal_len(liChunkQueue *out, liChunkQueue *in, goffset len
 				cnew->data.buffer.buffer = c->data.buffer.buffer;
 				cnew->data.buffer.offset = c->data.buffer.offset + c->offset;
 				cnew->data.buffer.length = length;
-				memoutbytes += length;
+				membytes += length;
 				break;
 			}
 			c->offset += length;
@@ -709,8 +711,7 @@ goffset li_chunkqueue_steal_len(liChunkQueue *out, liChunkQueue *in, goffset len
 	in->length -= bytes;
 	out->bytes_in += bytes;
 	out->length += bytes;
-	cqlimit_update(out, memoutbytes);
-	cqlimit_update(in, meminbytes);
+	cqlimit_move(out, in, membytes);
 
 	return bytes;
 }
@@ -722,13 +723,7 @@ goffset li_chunkqueue_steal_all(liChunkQueue *out, liChunkQueue *in) {
 	/* if in->queue is empty, do nothing */
 	if (!in->length) return 0;
 
-	if (in->limit != out->limit) {
-		cqlimit_update(out, in->mem_usage);
-		cqlimit_update(in, -in->mem_usage);
-	} else {
-		out->mem_usage += in->mem_usage;
-		in->mem_usage = 0;
-	}
+	cqlimit_move(out, in, in->mem_usage);
 
 	li_g_queue_merge(&out->queue, &in->queue);
 
@@ -756,18 +751,7 @@ goffset li_chunkqueue_steal_chunk(liChunkQueue *out, liChunkQueue *in) {
 	in->length -= length;
 	out->bytes_in += length;
 	out->length += length;
-	if (in->limit != out->limit) {
-		if (c->type == STRING_CHUNK) {
-			cqlimit_update(out, c->data.str->len);
-			cqlimit_update(in, - (goffset)c->data.str->len);
-		} else if (c->type == MEM_CHUNK) {
-			cqlimit_update(out, c->mem->len);
-			cqlimit_update(in, - (goffset)c->mem->len);
-		} else if (c->type == BUFFER_CHUNK) {
-			cqlimit_update(out, c->data.buffer.length);
-			cqlimit_update(in, - (goffset)c->data.buffer.length);
-		}
-	}
+	cqlimit_move(out, in, chunk_mem_length(c));
 	return length;
 }
 
@@ -780,13 +764,12 @@ goffset li_chunkqueue_skip(liChunkQueue *cq, goffset length) {
 	while ( (NULL != (c = li_chunkqueue_first_chunk(cq))) && (0 == (we_have = li_chunk_length(c)) || length > 0) ) {
 		if (we_have <= length) {
 			/* skip (delete) complete chunk */
-			if (c->type == STRING_CHUNK) cqlimit_update(cq, - (goffset)c->data.str->len);
-			else if (c->type == MEM_CHUNK) cqlimit_update(cq, - (goffset)c->mem->len);
-			else if (c->type == BUFFER_CHUNK) cqlimit_update(cq, - (goffset)c->data.buffer.length);
+			cqlimit_update(cq, -chunk_mem_length(c));
 			chunk_free(cq, c);
 			bytes += we_have;
 			length -= we_have;
 		} else { /* skip first part of a chunk */
+			if (FILE_CHUNK != c->type) cqlimit_update(cq, -length);
 			c->offset += length;
 			bytes += length;
 			length = 0;
-- 
2.43.0


From 72154963e74252f8bdddd8e7d4af00172a3a3058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:00 +0000
Subject: [PATCH 75/92] fix: data wasn't passed on after buffering the request
 body on disk had stopped

The next stream only got notified at the end of the body; with the limit for
the request body reached first the end was never read.
---
 src/main/filter_buffer_on_disk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/filter_buffer_on_disk.c b/src/main/filter_buffer_on_disk.c
index cc2f595..364db50 100644
--- a/src/main/filter_buffer_on_disk.c
+++ b/src/main/filter_buffer_on_disk.c
@@ -108,7 +108,7 @@ static void bod_handle_data(bod_state *state) {
 	if (NULL == in) goto out;
 
 	if (NULL == state->vr) {
-		li_chunkqueue_steal_all(out, in);
+		if (li_chunkqueue_steal_all(out, in) > 0) li_stream_notify(&state->stream);
 		goto out;
 	}
 
-- 
2.43.0


From 41f005c407bb9bbfd7b271824e9d1e45e5eb346e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:35 +0000
Subject: [PATCH 76/92] fix: [mod_openssl/mod_gnutls] the limit for encrypted
 data didn't limit anything

Each time new data for the client arrived another 16 kbyte were encrypted
even if the limit was reached, so data was still read from a fast backend
without any bound if the client didn't read.
---
 src/modules/gnutls_filter.c  | 3 +++
 src/modules/openssl_filter.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/modules/gnutls_filter.c b/src/modules/gnutls_filter.c
index c6cc67c..6a31f01 100644
--- a/src/modules/gnutls_filter.c
+++ b/src/modules/gnutls_filter.c
@@ -419,6 +419,9 @@ static void do_gnutls_write(liGnuTLSFilter *f) {
 		goto out;
 	}
 
+	/* encrypted buffer is full: continue when the limit gets unlocked */
+	if (0 < cq->length && 0 == li_chunkqueue_limit_available(f->crypt_source.out)) goto out;
+
 #ifdef USE_CORK
 	if (0 != cq->length && cq->queue.length > 1) {
 		corked = TRUE;
diff --git a/src/modules/openssl_filter.c b/src/modules/openssl_filter.c
index 9785182..bc35d6a 100644
--- a/src/modules/openssl_filter.c
+++ b/src/modules/openssl_filter.c
@@ -420,6 +420,9 @@ static void do_ssl_write(liOpenSSLFilter *f) {
 		goto out;
 	}
 
+	/* encrypted buffer is full: continue when the limit gets unlocked */
+	if (0 < cq->length && 0 == li_chunkqueue_limit_available(f->crypt_source.out)) goto out;
+
 	do {
 		GError *err = NULL;
 		liChunkIter ci;
-- 
2.43.0


From 960f7506619aeef1674dbd2ba75c28a273cf9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:48 +0000
Subject: [PATCH 77/92] fix: [mod_deflate] only one output buffer of the
 flushed data was passed on

---
 src/modules/mod_deflate.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/modules/mod_deflate.c b/src/modules/mod_deflate.c
index e4ab374..2c24151 100644
--- a/src/modules/mod_deflate.c
+++ b/src/modules/mod_deflate.c
@@ -128,7 +128,8 @@ static deflate_context_zlib* deflate_context_zlib_create(liVRequest *vr, deflate
 	}
 
 	ctx->buf = g_byte_array_new();
-	g_byte_array_set_size(ctx->buf, conf->output_buffer);
+	/* gzip header must fit, and flushing needs more than 6 bytes */
+	g_byte_array_set_size(ctx->buf, MAX(16, conf->output_buffer));
 
 	ctx->is_gzip = is_gzip;
 
@@ -279,11 +280,23 @@ static liHandlerResult deflate_filter_zlib(liVRequest *vr, liFilter *f) {
 	}
 
 	if (l > 0 && 0 == f->in->length && !f->in->is_closed) { /* flush z_stream */
-		rc = deflate(z, Z_SYNC_FLUSH);
-		if (rc != Z_OK && rc != Z_STREAM_END) {
-			if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
-			return LI_HANDLER_ERROR;
-		}
+		gboolean flushed;
+		do {
+			rc = deflate(z, Z_SYNC_FLUSH);
+			/* Z_BUF_ERROR: buffer got full with the very end of the flushed data */
+			if (rc != Z_OK && rc != Z_STREAM_END && rc != Z_BUF_ERROR) {
+				if (NULL != vr) VR_ERROR(vr, "deflate error: %s", z->msg);
+				return LI_HANDLER_ERROR;
+			}
+
+			/* output buffer full: there may be more pending data to flush */
+			flushed = (0 != z->avail_out);
+			if (!flushed) {
+				li_chunkqueue_append_mem(f->out, ctx->buf->data, ctx->buf->len - z->avail_out);
+				z->next_out = ctx->buf->data;
+				z->avail_out = ctx->buf->len;
+			}
+		} while (!flushed);
 	}
 
 	/* flush output buffer if there is no more data pending */
-- 
2.43.0


From 1d19159652862e88f50a98b7e1fe109e2f6f6a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:48 +0000
Subject: [PATCH 78/92] fix: the chunked body of a GET/HEAD request was parsed
 as the next request

---
 src/main/request.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/request.c b/src/main/request.c
index 56203c7..1edd9d3 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -287,9 +287,9 @@ gboolean li_request_validate_header(liConnection *con) {
 	switch(con->mainvr->request.http_method) {
 	case LI_HTTP_METHOD_GET:
 	case LI_HTTP_METHOD_HEAD:
-		/* content-length is forbidden for those */
-		if (con->mainvr->request.content_length > 0) {
-			VR_ERROR(con->mainvr, "%s", "GET/HEAD with content-length -> 400");
+		/* a request body is forbidden for those */
+		if (con->mainvr->request.content_length > 0 || transfer_encoding_chunked) {
+			VR_ERROR(con->mainvr, "%s", "GET/HEAD with request body -> 400");
 
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 8bf30e8e8a80225b108d79657d1ffa2ce4432a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:48 +0000
Subject: [PATCH 79/92] fix: Content-Length values without leading digit ("",
 "+3") were accepted

---
 src/main/request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/request.c b/src/main/request.c
index 1edd9d3..e4989f8 100644
--- a/src/main/request.c
+++ b/src/main/request.c
@@ -202,7 +202,7 @@ gboolean li_request_validate_header(liConnection *con) {
 		hh = (liHttpHeader*) l->data;
 		val = LI_HEADER_VALUE(hh);
 		r = g_ascii_strtoll(val, &err, 10);
-		if (*err != '\0') {
+		if (*err != '\0' || !g_ascii_isdigit(*val)) {
 			_VR_DEBUG(con->srv, con->mainvr, "content-length is not a number: %s (Status: 400)", err);
 			bad_request(con, 400); /* bad request */
 			return FALSE;
-- 
2.43.0


From 13f7bef7d7bc61c04e55d8c1e53bc8ce63462959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 80/92] fix: requests rejected with 414 were not counted in the
 statistics

---
 src/main/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/connection.c b/src/main/connection.c
index d993c30..9dd2aae 100644
--- a/src/main/connection.c
+++ b/src/main/connection.c
@@ -286,6 +286,7 @@ static void _connection_http_in_cb(liStream *stream, liStreamEvent event) {
 				li_counter_format(vr->request.uri.raw->len, COUNTER_BYTES, vr->wrk->tmp_str)->str
 			);
 
+			con->wrk->stats.requests++;
 			con->info.keep_alive = FALSE;
 			vr->response.http_status = 414; /* Request-URI Too Large */
 			in->is_closed = TRUE; /* no body after a bad request header */
-- 
2.43.0


From 676712c0a0fd213199045acf99a5eb3c8b176b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:58 +0000
Subject: [PATCH 81/92] fix: mod_status counted aborted requests outside of the
 array of response codes

---
 src/modules/mod_status.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_status.c b/src/modules/mod_status.c
index a30fddb..24d43b8 100644
--- a/src/modules/mod_status.c
+++ b/src/modules/mod_status.c
@@ -1248,7 +1248,10 @@ static void status_handle_vrclose(liVRequest *vr, liPlugin *p) {
 	gint http_status = vr->response.http_status;
 	UNUSED(p);
 
-	if ((http_status < 100 && http_status != 0) || http_status > 599) {
+	/* aborted before there was a response */
+	if (0 == http_status) return;
+
+	if (http_status < 100 || http_status > 599) {
 		VR_ERROR(vr, "unknown status code: %d", http_status);
 		return;
 	}
-- 
2.43.0


From 54093b7b18d4b3316f3fcc243fa2d408a0ea2c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:35 +0000
Subject: [PATCH 82/92] fix: workers with slightly different clocks refilled a
 throttle pool with a whole second's worth

---
 src/main/throttle.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main/throttle.c b/src/main/throttle.c
index de7b3c6..e192513 100644
--- a/src/main/throttle.c
+++ b/src/main/throttle.c
@@ -9,6 +9,8 @@
 #define THROTTLE_MAX_STEP (64*1024)
 /* even if the magazine is empty release "overload" bytes to get requests started */
 #define THROTTLE_OVERLOAD (8*1024)
+/* max difference between the timestamps of two workers (msec) */
+#define THROTTLE_MAX_SKEW 10000
 
 /* debug */
 #if 0
@@ -100,17 +102,24 @@ static void S_throttle_pool_rearm_workers(liThrottlePool *pool, guint worker_cou
 	}
 }
 
+/* the timestamps of the workers differ: if another worker already used a (slightly) later one, time_diff is
+ * "negative" and there is nothing to refill
+ */
+static gboolean throttle_rearm_due(guint time_diff) {
+	return time_diff >= LI_THROTTLE_GRANULARITY && time_diff < (guint) -THROTTLE_MAX_SKEW;
+}
+
 static void throttle_pool_rearm(liWorker *wrk, liThrottlePool *pool, guint now) {
 	liThrottlePoolWorkerState *wpool = &pool->workers[wrk->ndx];
 	guint last = g_atomic_int_get((gint*) &pool->last_rearm);
 	guint time_diff = now - last;
 
-	if (HEDLEY_UNLIKELY(time_diff >= LI_THROTTLE_GRANULARITY)) {
+	if (HEDLEY_UNLIKELY(throttle_rearm_due(time_diff))) {
 		g_mutex_lock(pool->rearm_mutex);
 			/* check again */
 			last = g_atomic_int_get((gint*) &pool->last_rearm);
 			time_diff = now - last;
-			if (HEDLEY_LIKELY(time_diff >= LI_THROTTLE_GRANULARITY)) {
+			if (HEDLEY_LIKELY(throttle_rearm_due(time_diff))) {
 				S_throttle_pool_rearm_workers(pool, wrk->srv->worker_count, time_diff);
 				g_atomic_int_set((gint*) &pool->last_rearm, now);
 			}
-- 
2.43.0


From 83af5e0a89c5dda34a5bd7b63b4b15e024c1bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:32 +0000
Subject: [PATCH 83/92] fix: mod_gnutls kept the streams of every connection
 which was closed by the TLS session

close_cb cleared con_sock.callbacks, so the connection's finish callback
was never called: the two plug streams were leaked, and is_ssl stayed set
for the next connection using the same object.
---
 src/modules/mod_gnutls.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/modules/mod_gnutls.c b/src/modules/mod_gnutls.c
index 0facd75..2305821 100644
--- a/src/modules/mod_gnutls.c
+++ b/src/modules/mod_gnutls.c
@@ -399,7 +399,6 @@ static void close_cb(liGnuTLSFilter *f, gpointer data) {
 		LI_FORCE_ASSERT(con->con_sock.data == conctx);
 		conctx->con = NULL;
 		con->con_sock.data = NULL;
-		con->con_sock.callbacks = NULL;
 		li_stream_acquire(raw_in);
 		li_stream_reset(raw_out);
 		li_stream_reset(raw_in);
-- 
2.43.0


From 2da0b73c83f7a60dfbe199fb666c85dfb623ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:51 +0000
Subject: [PATCH 84/92] fix: fastcgi: backend connections closed without an end
 request record were never put back

The connection object, its buffers and (at exit) the whole pool were leaked
for every such request, and it was counted as active forever.
---
 src/modules/fastcgi_stream.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modules/fastcgi_stream.c b/src/modules/fastcgi_stream.c
index 71e1808..915fc64 100644
--- a/src/modules/fastcgi_stream.c
+++ b/src/modules/fastcgi_stream.c
@@ -640,6 +640,11 @@ static void fastcgi_decode(liFastCGIBackendContext *ctx) {
 			ctx->fcgi_in.out->is_closed = TRUE;
 			li_stream_notify_later(&ctx->fcgi_in);
 			li_stream_simple_socket_close(ctx->iostream, FALSE);
+			if (NULL != ctx->currentcon) {
+				/* there won't be an end request record: the connection has to be put back now */
+				const liFastCGIBackendCallbacks *callbacks = ctx->pool->callbacks;
+				callbacks->end_request_cb(ctx->currentcon->vr, &ctx->pool->public, &ctx->currentcon->public, 0);
+			}
 		}
 	}
 }
-- 
2.43.0


From 5bbf77af8f35ac9ebccfffe9a91889822a17237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:30 +0000
Subject: [PATCH 85/92] fix: tasklets finished while the pool was freed were
 leaked

---
 src/common/tasklet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/tasklet.c b/src/common/tasklet.c
index 12ce83f..c24b96d 100644
--- a/src/common/tasklet.c
+++ b/src/common/tasklet.c
@@ -75,6 +75,7 @@ void li_tasklet_pool_free(liTaskletPool *pool) {
 
 	while (NULL != (t = g_async_queue_try_pop(pool->finished))) {
 		t->finished_cb(t->data);
+		g_slice_free(liTasklet, t);
 	}
 	g_async_queue_unref(pool->finished);
 	pool->finished = NULL;
-- 
2.43.0


From 061263e72095060482d7f37b8d01c8c19a78cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:15 +0000
Subject: [PATCH 86/92] fix: mod_dirlist answered 304 although size or time of
 listed entries had changed

---
 src/modules/mod_dirlist.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/modules/mod_dirlist.c b/src/modules/mod_dirlist.c
index 66dcc30..dd0ab0f 100644
--- a/src/modules/mod_dirlist.c
+++ b/src/modules/mod_dirlist.c
@@ -358,6 +358,7 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 		gchar datebuf[sizeof("2005-Jan-01 22:23:24")+1];
 		guint datebuflen;
 		struct tm tm;
+		struct stat listing_st;
 		gboolean hide;
 
 		if (!li_vrequest_handle_direct(vr)) {
@@ -370,7 +371,16 @@ static liHandlerResult dirlist(liVRequest *vr, gpointer param, gpointer *context
 			VR_DEBUG(vr, "dirlist for \"%s\", %u entries", sce->data.path->str, sce->dirlist->len);
 
 		li_http_header_overwrite(vr->response.headers, CONST_STR_LEN("Content-Type"), GSTR_LEN(dd->content_type));
-		li_etag_set_header(vr, &sce->data.st, &cachable);
+
+		/* the listing shows size and modification time of all entries: a change of any of them is a change of the listing */
+		listing_st = sce->data.st;
+		for (i = 0; i < sce->dirlist->len; i++) {
+			sced = &g_array_index(sce->dirlist, liStatCacheEntryData, i);
+			if (sced->failed) continue;
+			if (sced->st.st_mtime > listing_st.st_mtime) listing_st.st_mtime = sced->st.st_mtime;
+			listing_st.st_size += sced->st.st_size;
+		}
+		li_etag_set_header(vr, &listing_st, &cachable);
 		if (cachable) {
 			vr->response.http_status = 304;
 			li_stat_cache_entry_release(vr, sce);
-- 
2.43.0


From 855e0f1fb39ab8c00ad82d8a52069fd031c33f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 87/92] fix: mod_debug leaked two socket addresses for each
 listed io event

---
 src/modules/mod_debug.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/mod_debug.c b/src/modules/mod_debug.c
index 04ea045..7c06d46 100644
--- a/src/modules/mod_debug.c
+++ b/src/modules/mod_debug.c
@@ -402,6 +402,9 @@ static void format_event(GString *out, liWorker *wrk, liEventBase *base) {
 
 			li_sockaddr_to_string(remote_addr, wrk->tmp_str, TRUE);
 			g_string_append_printf(out, ", remote=%s", wrk->tmp_str->str);
+
+			li_sockaddr_clear(&local_addr);
+			li_sockaddr_clear(&remote_addr);
 		}
 		break;
 	case LI_EVT_TIMER:
-- 
2.43.0


From f292cf56a92c20f45551aeec4a6084d530cddcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 88/92] fix: a lua script which failed to load left the lua
 stack and globals in a broken state

---
 src/main/config_lua.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/main/config_lua.c b/src/main/config_lua.c
index bf34252..9f0b0ce 100644
--- a/src/main/config_lua.c
+++ b/src/main/config_lua.c
@@ -166,7 +166,7 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 
 	if (0 != luaL_loadfile(L, filename)) {
 		_ERROR(srv, wrk, NULL, "Loading script '%s' failed: %s", filename, lua_tostring(L, -1));
-		return FALSE;
+		goto failed;
 	}
 
 	_DEBUG(srv, wrk, NULL, "Loaded config script '%s'", filename);
@@ -186,18 +186,7 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 	errfunc = li_lua_push_traceback(L, 2); /* +1, but before args */
 	if (lua_pcall(L, 2, 0, errfunc)) { /* -3 (func + args), 0 results (but 1 error) */
 		_ERROR(srv, wrk, NULL, "lua_pcall(): %s", lua_tostring(L, -1));
-
-		/* cleanup stack */
-		if (lua_stack_top > lua_gettop(L)) {
-			lua_pop(L, lua_gettop(L) - lua_stack_top);
-		}
-
-		li_lua_environment_restore(LL); /* -1 */
-		li_lua_environment_restore_globals(L); /* -1 */
-
-		li_lua_unlock(LL);
-
-		return FALSE;
+		goto failed;
 	}
 	lua_remove(L, errfunc);
 
@@ -215,4 +204,15 @@ gboolean li_config_lua_load(liLuaState *LL, liServer *srv, liWorker *wrk, const
 	li_lua_unlock(LL);
 
 	return TRUE;
+
+failed:
+	/* pop error message and whatever else is left on the stack */
+	lua_settop(L, lua_stack_top);
+
+	li_lua_environment_restore(LL); /* -1 */
+	li_lua_environment_restore_globals(L); /* -1 */
+
+	li_lua_unlock(LL);
+
+	return FALSE;
 }
-- 
2.43.0


From 51ca4938846d602d97749f2c6a50cb9100f7bcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 89/92] fix: lua.handler missed changes of the script hidden by
 the stat cache or made within the second of the load

---
 src/modules/mod_lua.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/modules/mod_lua.c b/src/modules/mod_lua.c
index abda286..4abc647 100644
--- a/src/modules/mod_lua.c
+++ b/src/modules/mod_lua.c
@@ -36,7 +36,11 @@ struct module_config {
 typedef struct lua_worker_config lua_worker_config;
 struct lua_worker_config {
 	liAction *act;
-	time_t ts_loaded;
+	time_t ts_checked, ts_loaded;
+	/* identity of the loaded file */
+	time_t mtime;
+	goffset size;
+	ino_t ino;
 };
 
 typedef struct lua_config lua_config;
@@ -85,12 +89,11 @@ static liHandlerResult lua_handle(liVRequest *vr, gpointer param, gpointer *cont
 
 	wc = &conf->worker_config[vr->wrk->ndx];
 
-	if (wc->act) timeout = (conf->ttl > 0 && wc->ts_loaded + conf->ttl < li_cur_ts(vr->wrk));
+	if (wc->act) timeout = (conf->ttl > 0 && wc->ts_checked + conf->ttl < li_cur_ts(vr->wrk));
 
 	if (!wc->act || timeout) {
 		int err;
 		struct stat st;
-		time_t last_load;
 
 		res = li_stat_cache_get(vr, conf->filename, &st, &err, NULL);
 		switch (res) {
@@ -103,11 +106,16 @@ static liHandlerResult lua_handle(liVRequest *vr, gpointer param, gpointer *cont
 			break;
 		}
 
-		last_load = wc->ts_loaded;
-		wc->ts_loaded = li_cur_ts(vr->wrk);
-		if (timeout && st.st_mtime <= last_load) {
+		wc->ts_checked = li_cur_ts(vr->wrk);
+		/* st might come from the stat cache, so don't compare with the time of the last check;
+		 * reload again if the file could have been changed after it got loaded without getting another mtime */
+		if (timeout && st.st_mtime == wc->mtime && st.st_size == wc->size && st.st_ino == wc->ino && st.st_mtime < wc->ts_loaded - 1) {
 			goto loaded;
 		}
+		wc->ts_loaded = wc->ts_checked;
+		wc->mtime = st.st_mtime;
+		wc->size = st.st_size;
+		wc->ino = st.st_ino;
 
 		li_action_release(vr->wrk->srv, wc->act);
 		wc->act = NULL;
-- 
2.43.0


From a0e4e34737150d27cf880a9a3389d9a113a86cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 90/92] fix: filters added with vr:add_filter_in/out ran
 without a lua environment and crashed

---
 src/main/filters_lua.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/filters_lua.c b/src/main/filters_lua.c
index e6a0272..5a9e4c3 100644
--- a/src/main/filters_lua.c
+++ b/src/main/filters_lua.c
@@ -361,6 +361,7 @@ liFilter* li_lua_vrequest_add_filter_in(lua_State *L, liVRequest *vr, int state_
 	state = g_slice_new0(filter_lua_state);
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	state->env_ref = li_lua_environment_create(LL, vr);
 
 	return li_vrequest_add_filter_in(vr, filter_lua_handle, filter_lua_free, NULL, state);
 }
@@ -374,6 +375,7 @@ liFilter* li_lua_vrequest_add_filter_out(lua_State *L, liVRequest *vr, int state
 	state = g_slice_new0(filter_lua_state);
 	state->LL = LL;
 	state->object_ref = luaL_ref(L, LUA_REGISTRYINDEX);
+	state->env_ref = li_lua_environment_create(LL, vr);
 
 	return li_vrequest_add_filter_out(vr, filter_lua_handle, filter_lua_free, NULL, state);
 }
-- 
2.43.0


From 576359bfb2d0ab2e60503df0bb23e92a3516e160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 91/92] fix: lua chunkqueue:add_file leaked the file descriptor
 when it raised an error

---
 src/main/chunk_lua.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index e9b6379..9702d3b 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -169,10 +169,11 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 
 	if (lua_gettop(L) >= 3) {
 		if (!lua_isnumber(L, 3)) {
+			close(fd); /* lua_error doesn't return */
+
 			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as second parameter");
 			lua_error(L);
 
-			close(fd);
 			return -1;
 		}
 
@@ -180,10 +181,11 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 	}
 	if (lua_gettop(L) >= 4) {
 		if (!lua_isnumber(L, 4)) {
+			close(fd); /* lua_error doesn't return */
+
 			lua_pushliteral(L, "chunkqueue:add expects number (or nothing) as third parameter");
 			lua_error(L);
 
-			close(fd);
 			return -1;
 		}
 
@@ -191,10 +193,11 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 	}
 
 	if (start < 0 || start >= st.st_size || length < 0 || start + length > st.st_size) {
+		close(fd); /* lua_error doesn't return */
+
 		lua_pushliteral(L, "chunkqueue:add: Invalid start/length values");
 		lua_error(L);
 
-		close(fd);
 		return -1;
 	}
 
-- 
2.43.0


From 62786aa8dfdb27aa7ffe195bc9aa54918358db5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 92/92] fix: lua chunkqueue:add_file ignored the length
 parameter, and failed for empty files and for a start without length

---
 src/main/chunk_lua.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/chunk_lua.c b/src/main/chunk_lua.c
index 9702d3b..e21da3d 100644
--- a/src/main/chunk_lua.c
+++ b/src/main/chunk_lua.c
@@ -178,6 +178,7 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 		}
 
 		start = lua_tonumber(L, 3);
+		length = st.st_size - start;
 	}
 	if (lua_gettop(L) >= 4) {
 		if (!lua_isnumber(L, 4)) {
@@ -189,10 +190,10 @@ static int _lua_chunkqueue_add_file(lua_State *L, gboolean tempfile) {
 			return -1;
 		}
 
-		length = lua_tonumber(L, 3);
+		length = lua_tonumber(L, 4);
 	}
 
-	if (start < 0 || start >= st.st_size || length < 0 || start + length > st.st_size) {
+	if (start < 0 || start > st.st_size || length < 0 || length > st.st_size - start) {
 		close(fd); /* lua_error doesn't return */
 
 		lua_pushliteral(L, "chunkqueue:add: Invalid start/length values");
-- 
2.43.0

