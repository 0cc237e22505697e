"""Single source of the property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)]
P = []
def p(id, title, statement, over, text, why, files, mech, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note))

IO = 'any segmentation, latency, back pressure, short or interrupted system call and worker/thread interleaving'
SMOKE = 'The existing tests send a few fixed requests over an idle loopback socket: one schedule, no partial I/O, no failures.'

p('P01', 'Static file responses carry exactly the file content',
  'A successful response for an existing, unchanging static file has status 200, a Content-Length equal to the file size and a body byte-identical to the file (HEAD: same head, no body). This holds for every file size, for every socket behaviour (short writes, EAGAIN, EINTR, tiny windows, sendfile unavailable), for every worker count and while other requests are in progress.',
  ['inputs', 'schedules', 'fault_sequences', 'configurations'], 'all file sizes, request sets, ' + IO, SMOKE,
  ['src/main/chunk.c', 'src/main/network.c', 'src/main/network_sendfile.c', 'src/main/network_writev.c', 'src/main/network_write.c', 'src/main/actions.c', 'src/main/stat_cache.c', 'src/main/plugin_core.c', 'src/main/response.c', 'src/main/stream_simple_socket.c'],
  [('chunk queue bookkeeping', 'chunk.c li_chunkqueue_*'), ('partial write handling', 'network_*.c'), ('async stat', 'stat_cache.c')])
p('P02', 'One response per request, in request order, on every connection',
  'On a kept-alive or pipelined connection the server answers each complete request exactly once, in order, each response being well-formed HTTP that belongs to that request, and keeps the connection usable until a response announces the close. No bytes outside responses ever appear, and no request that was completely received on an open, unclosed connection is left unanswered.',
  ['inputs', 'schedules', 'fault_sequences', 'histories'], 'all request sequences, pipelining depths, think times, ' + IO, SMOKE,
  ['src/main/connection.c', 'src/main/stream_http_response.c', 'src/main/response.c', 'src/main/http_request_parser.rl', 'src/main/virtualrequest.c', 'src/main/worker.c'],
  [('keep-alive reset', 'connection.c connection_request_done/li_connection_reset_keep_alive'), ('keep-alive queue', 'worker.c worker_keepalive_cb')])
p('P03', 'Requests are interpreted the same however their bytes are split',
  'The sequence of responses to a request byte stream (method, target, headers, Content-Length or chunked body, pipelined successors, malformed requests) does not depend on how the network cuts that stream into segments or delays them. A request whose header is malformed, ambiguous or over a limit is answered with the same 4xx/5xx status and ends the connection; a malformed chunked body ends the connection; nothing after either is interpreted as another request.',
  ['inputs', 'schedules'], 'all request streams of the generator and all their segmentations', 'Unit tests feed the parser whole buffers; the HTTP tests send each request in one piece.',
  ['src/main/http_request_parser.rl', 'src/main/request.c', 'src/main/connection.c', 'src/main/filter_chunked.c', 'src/main/chunk_parser.c', 'src/main/http_headers.c'],
  [('resumable Ragel parser over chunk queue', 'http_request_parser.rl, chunk_parser.c'), ('chunked request body decoder', 'filter_chunked.c')])
p('P04', 'Request bodies reach the backend exactly, or not as a complete request',
  'A request forwarded to a proxy, FastCGI or SCGI backend carries exactly the body bytes the client sent, once, with a matching announced length and the method, path, query and headers of that request, whether the body was buffered in memory, spooled to disk or streamed. If the client disconnects before its body is complete, or spooling fails, the backend never receives a complete request for it.',
  ['inputs', 'schedules', 'fault_sequences'], 'all body sizes and encodings, upload speeds, client aborts, disk errors, ' + IO, 'Backend tests exist only for tiny requests over an idle loopback; no disk error, abort or slow upload is exercised.',
  ['src/main/filter_buffer_on_disk.c', 'src/main/filter_chunked.c', 'src/main/connection.c', 'src/modules/mod_proxy.c', 'src/modules/mod_scgi.c', 'src/modules/fastcgi_stream.c', 'src/modules/mod_fastcgi.c', 'src/main/environment.c', 'src/main/chunk.c'],
  [('request body stream', 'connection.c connection_handle_read / stream chain'), ('disk spooling', 'filter_buffer_on_disk.c'), ('record framing', 'fastcgi_stream.c')])
p('P05', 'Backend responses are relayed exactly and truncation is never hidden',
  'A complete backend response (proxy, FastCGI, SCGI; any framing and record/segment layout) reaches the client with its status, end-to-end headers and body unchanged. If the backend ends, resets or violates its protocol in the middle of a response, the client gets an error status or a visibly incomplete message, never a complete-looking response with missing or foreign bytes.',
  ['inputs', 'schedules', 'fault_sequences'], 'all response sizes, framings, record layouts and cut points, ' + IO, 'The tests only see complete, small, single-segment backend answers.',
  ['src/main/http_response_parser.rl', 'src/main/stream_http_response.c', 'src/main/response.c', 'src/modules/mod_proxy.c', 'src/modules/mod_scgi.c', 'src/modules/fastcgi_stream.c', 'src/main/filter_chunked.c'],
  [('response head parser and body framing', 'stream_http_response.c'), ('FastCGI demultiplexer', 'fastcgi_stream.c')])
p('P06', 'Concurrent requests are isolated from each other',
  'Whatever other requests are handled at the same time, by any worker, over reused client connections or reused internal objects, a response contains only data computed for its own request: status, headers, body, environment and per-request options never leak from one request into another. A request is handed to a backend at most once.',
  ['schedules', 'histories', 'inputs'], 'all interleavings of concurrent requests and connection reuse', 'Tests run requests strictly one after another.',
  ['src/main/virtualrequest.c', 'src/main/connection.c', 'src/main/worker.c', 'src/main/backends.c', 'src/main/environment.c', 'src/main/request.c', 'src/main/response.c', 'src/main/actions.c'],
  [('object reuse after reset', 'li_vrequest_reset, li_connection_reset*'), ('worker connection pool', 'worker.c')])
p('P07', 'Backend failures are contained and recovery is prompt',
  'If a backend refuses, is unreachable, never answers the connect, or fails before answering, each affected request ends with a 5xx response within the configured connect/wait timeouts (plus scheduling slack) and other requests are unaffected. Once the backend works again, new requests reach it within the disable time, without a restart.',
  ['fault_sequences', 'schedules', 'histories'], 'all sequences of backend outages and recoveries, all connect outcomes', 'No test lets a backend fail at a chosen moment or measures time.',
  ['src/main/backends.c', 'src/modules/mod_proxy.c', 'src/modules/mod_scgi.c', 'src/modules/mod_fastcgi.c', 'src/main/network.c', 'src/main/virtualrequest.c'],
  [('connect state machine, wait queue, disable timer', 'backends.c'), ('backend error escalation', 'virtualrequest.c li_vrequest_backend_error/overloaded/dead')])
p('P08', 'Timeouts fire, but never early',
  'An idle kept-alive connection is closed once keepalive.timeout has passed and not before; a connection whose peer makes no progress reading or writing is closed once io.timeout has passed, and a connection that keeps making progress is never timed out. Keep-alive request limits are respected exactly.',
  ['schedules', 'histories', 'configurations'], 'all timings of client activity relative to the configured timeouts, virtual clock', 'Real-time tests cannot cover timeouts of seconds to minutes at every phase of a connection.',
  ['src/main/worker.c', 'src/main/connection.c', 'src/main/stream_simple_socket.c', 'src/common/waitqueue.c'],
  [('keep-alive queue', 'worker.c, connection.c'), ('io timeout wait queue', 'waitqueue.c, connection.c')])
p('P09', 'Every acquired resource is released when its request ends',
  'After all clients finished or vanished, in any way and at any point of any request, the server returns to its idle state: no accepted connection, backend connection, descriptor or temporary file remains, no connection is counted as active, and memory use does not grow with the number of requests served.',
  ['histories', 'fault_sequences', 'schedules'], 'all abort points of clients and backends, all failing system calls', 'Tests do not look at descriptors or temporary files and never abort in the middle.',
  ['src/main/connection.c', 'src/main/worker.c', 'src/main/backends.c', 'src/main/stream.c', 'src/main/chunk.c', 'src/main/virtualrequest.c', 'src/main/stat_cache.c', 'src/main/tasklet.c'],
  [('connection recycling', 'worker.c worker_con_put'), ('reference counted streams and chunk files', 'stream.c, chunk.c')])
p('P10', 'No input, schedule or failure crashes or wedges the server',
  'No sequence of client, backend, file or clock behaviour and no failing system call or thread interleaving makes the server crash, access invalid memory, dead-lock, or spin without progress; after the disturbance ends, a fresh request is answered promptly.',
  ['inputs', 'schedules', 'fault_sequences', 'histories'], 'everything the simulator generates, across all scenarios', 'Tests exercise only clean, sequential behaviour without sanitizers or injected failures.',
  ['src/main/', 'src/common/', 'src/modules/'], [('event loop, jobs, streams', 'src/common/events.c, jobqueue.c, tasklet.c; src/main/stream.c')])
p('P11', 'Graceful shutdown finishes accepted requests and then exits',
  'After a termination signal the server stops accepting, lets every request that is already being processed finish with its complete response, closes idle kept-alive connections, and the process exits by itself within a bounded time. Connections closed on shutdown never show a partial response that looks complete.',
  ['schedules', 'histories'], 'all moments of the signal relative to accepts, requests, responses and keep-alive phases', 'No test stops the server while requests are in flight.',
  ['src/main/server.c', 'src/main/worker.c', 'src/main/connection.c', 'src/main/lighttpd_worker.c'],
  [('state machine running->stopping->down', 'server.c li_server_goto_state'), ('worker stop/suspend', 'worker.c')])
p('P12', 'Connection limit and descriptor exhaustion never lose the server',
  'The number of client connections being served at the same time never exceeds the connection limit (a quarter of the descriptor limit); connections above it wait in the listen queue and are served completely later, and once the load has dropped to 7/8 of the limit waiting ones are accepted within about a second. Running out of descriptors or failing accept calls only delays new clients and requests that need a descriptor: other requests on existing connections are unaffected, the server does not spin, and full service resumes when descriptors are available.',
  ['fault_sequences', 'schedules', 'histories'], 'all arrival/departure patterns around the limit, EMFILE/ECONNABORTED/... at any accept', 'Tests never reach the limit nor make accept fail.',
  ['src/main/server.c', 'src/main/worker.c', 'src/main/connection.c'],
  [('load counter and listen enable/disable', 'server.c li_server_listen_cb, connection counters in worker.c')])
p('P13', 'Throttled traffic obeys its rate and still completes',
  'With io.throttle or a throttle pool the bytes delivered in any time window never exceed rate times window plus the configured burst and a small constant, over all connections sharing the pool. A throttled transfer is byte-exact and completes at about the configured rate as long as the peer reads: it never stalls.',
  ['schedules', 'configurations', 'histories'], 'all rates, bursts, numbers of connections and their timing', 'No throttle test exists; rates need a controllable clock.',
  ['src/main/throttle.c', 'src/modules/mod_throttle.c', 'src/main/stream_simple_socket.c'],
  [('magazine refill and pool distribution', 'throttle.c')])
p('P14', 'Connection and request-rate limits count exactly',
  'With limit.con / limit.con_ip at most N requests are admitted at the same time (in total / per client address) and with limit.req / limit.req_ip at most N requests per second; a request below the limit is never rejected and every admitted request releases its slot when it ends, however it ends.',
  ['schedules', 'histories', 'fault_sequences'], 'all arrival patterns, aborts and interleavings of workers', 'No test exists for the limit module; a lost decrement shows only after a particular abort.',
  ['src/modules/mod_limit.c'], [('shared counters with locks', 'mod_limit.c'), ('release on vrclose', 'mod_limit.c mod_limit_vrclose')])
p('P15', 'The access log has exactly one correct, untorn line per request',
  'For every request that was handled, the access log receives exactly one complete line describing it (method, path, status, body bytes sent), lines are never interleaved, duplicated or lost, also with several workers, slow, short or interrupted log writes, log rotation and shutdown. Lines are written while the server runs, within seconds of the request, not only at exit. Requests answered before a graceful shutdown are in the log when the process has exited.',
  ['schedules', 'fault_sequences', 'histories'], 'all interleavings of workers and log thread, short writes, rotation and stop moments', 'Tests never read the access log.',
  ['src/main/log.c', 'src/modules/mod_accesslog.c', 'src/main/virtualrequest.c'],
  [('log thread queue', 'log.c'), ('vrclose hook', 'mod_accesslog.c')])
p('P16', 'Conditional and range answers are consistent with one file version',
  'For a file that is replaced while it is served, every complete 200 response has the bytes, Content-Length and ETag of one single version, and a 304 or 206 refers to a version that was current at some time during the request or within the stat cache lifetime. Ranges (single, multiple, suffix, unsatisfiable) deliver exactly the requested bytes with correct Content-Range, and a file truncated in place leads to an aborted connection, never to a complete-looking wrong response.',
  ['inputs', 'schedules', 'histories'], 'all range specifications, all moments of file replacement/truncation, all stat cache states', 'Tests use constant files and a handful of ranges.',
  ['src/main/plugin_core.c', 'src/main/etag.c', 'src/main/stat_cache.c', 'src/common/http_range_parser.rl', 'src/main/chunk.c', 'src/main/actions.c'],
  [('etag and conditional headers', 'etag.c'), ('stat cache', 'stat_cache.c'), ('range parser', 'http_range_parser.rl')])
p('P17', 'Compressed responses decode to the original body',
  'Whenever the deflate module sends an encoded response, the advertised encoding is one the client accepted and the decoded body equals the unencoded one, for every content, size, chunking of the source and back pressure; responses that must not be encoded (already encoded, 204, 206, 304) are left alone and Vary/ETag stay correct. A source that fails in the middle leads to a visibly incomplete message.',
  ['inputs', 'schedules', 'fault_sequences'], 'all contents, encodings, buffer sizes, ' + IO, 'The deflate test compresses one small static page.',
  ['src/modules/mod_deflate.c', 'src/main/stream.c', 'src/main/chunk.c'],
  [('incremental zlib/bzip2 filter', 'mod_deflate.c')])
p('P18', 'The on-disk etag cache never serves a wrong or partial entry',
  'With cache.disk.etag, every complete response equals what the request would produce without the cache for that ETag: entries become visible only when complete, under concurrent requests for the same resource, client aborts, disk errors and server crashes at any moment, including after a restart on the surviving files. A broken or missing cache never makes a request fail.',
  ['crash_points', 'schedules', 'fault_sequences', 'histories'], 'all crash points and disk faults while entries are written, all interleavings', 'Tests fetch a resource twice in sequence.',
  ['src/modules/mod_cache_disk_etag.c', 'src/modules/mod_deflate.c', 'src/main/chunk.c'],
  [('write to temporary file, rename when complete', 'mod_cache_disk_etag.c')])
p('P19', 'Memcached lookups return the stored value or nothing',
  'A response served from memcached is byte-identical to the value stored under that request key; an unreachable, misbehaving or restarting memcached server, or one that closes the connection, turns into a cache miss (the normal answer), lookups are used again once the server is healthy, and replies never mix up values of pipelined lookups. Stored values are exactly the response bodies of cacheable complete responses.',
  ['schedules', 'fault_sequences', 'inputs'], 'all reply segmentations, error replies, connection losses and pipelining orders', 'No memcached server is available to the tests.',
  ['src/common/memcached.c', 'src/modules/mod_memcached.c'],
  [('pipelined text protocol client', 'memcached.c'), ('lookup/store filters', 'mod_memcached.c')])
p('P20', 'Load balancing uses live backends and fails over',
  'With a balancer (rr or sqf, also nested) every request is passed to exactly one of the configured backends at a time and its response is relayed; as long as one backend is usable a failing backend is failed over without an error for requests that were not yet passed on, a request already passed on is not duplicated, and while no backend is usable requests wait in the backlog: they are all passed on within a bounded time after backends become reachable again, never forgotten. Once all backends work, each of them receives requests again and N concurrent requests spread over the N backends.',
  ['fault_sequences', 'schedules', 'histories'], 'all sequences of backend outages, overloads and recoveries', 'No balancer test exists.',
  ['src/modules/mod_balance.c', 'src/main/backends.c', 'src/main/virtualrequest.c'],
  [('backend selection, wake/alive state, backlog', 'mod_balance.c')])
p('P21', 'TLS is transparent to HTTP behaviour',
  'Over TLS (openssl and gnutls modules) a client receives the same exact responses as over plain TCP for every segmentation of TLS records and every timing; a missing close_notify, garbage, or an abort in or after the handshake only ends that connection.',
  ['schedules', 'fault_sequences', 'inputs'], 'all record segmentations, handshake abort points, ' + IO, 'TLS tests, if run at all, use one undisturbed loopback connection.',
  ['src/modules/mod_openssl.c', 'src/modules/openssl_filter.c', 'src/modules/mod_gnutls.c', 'src/modules/gnutls_filter.c'],
  [('TLS filter state machine', 'openssl_filter.c, gnutls_filter.c')])
p('P22', 'The angel keeps exactly one working instance and passes it its sockets',
  'The angel process restarts an instance that dies after having come up; it gives up only on an instance that never reported a state or that could not be started, and then a SIGHUP starts a working one again. It never has more than one other instance alive when it starts one (and only for a requested hand-over), and never tells an instance to run while another one that was told to run has not been stopped and left service. A graceful restart completes, keeps the same listening sockets open throughout and ends with exactly the new instance. SIGTERM at any moment stops every instance, starts none, and the angel exits when the last one is gone. Every call of an instance gets exactly one matching answer with the right descriptor, and only addresses and log paths the configuration permits. Failing fork/pipe/socketpair/dup calls and garbage on the control connection do not crash the angel or leak descriptors.',
  ['schedules', 'fault_sequences', 'crash_points'], 'all segmentations of the control stream, all instance death points, failing fork/socket calls', 'No angel test exists.',
  ['src/common/angel_connection.c', 'src/angel/angel_proc.c', 'src/angel/angel_plugin_core.c', 'src/angel/angel_server.c', 'src/main/angel.c'],
  [('framed control protocol', 'angel_connection.c'), ('instance state machine', 'angel_server.c, angel_plugin_core.c')])
p('P23', 'Upgraded connections are transparent byte pipes',
  'After a proxied HTTP Upgrade was accepted by the backend (101), every byte either side sends arrives at the other side, in order, unmodified and exactly once, including bytes sent immediately after the handshake; bytes the backend sent before an orderly close all reach the client, and when either side closes or resets its connection the other one is ended in bounded time. Without a 101 the connection continues as ordinary HTTP.',
  ['schedules', 'inputs', 'fault_sequences'], 'all interleavings and segmentations of both directions', 'Tests do not use upgrades.',
  ['src/main/stream_http_response.c', 'src/main/connection.c', 'src/modules/mod_proxy.c', 'src/main/response.c'],
  [('upgrade hand-over of streams', 'connection.c, response.c, stream_http_response.c')])
p('P24', 'Directory listings and stat results are fresh and complete',
  'A directory listing names every entry that existed during the whole request and no entry that was absent for longer than the stat cache lifetime, also with concurrent listings and changes; each entry is listed once, with a link, size and modification time it had within that time, hidden and excluded names are never listed, and header and readme texts appear only when configured. When reading the directory fails, an error is answered, never an incomplete listing. A listing is answered with 304 only if the names, sizes and modification times it shows under the validator sent by the client are unchanged (to the one second resolution of the validators). After the cache lifetime has passed, created, changed or deleted files are served according to the new state by every worker.',
  ['histories', 'schedules', 'fault_sequences'], 'all interleavings of file changes with lookups, stat delays and errors', 'Tests never change files while the server runs.',
  ['src/main/stat_cache.c', 'src/modules/mod_dirlist.c', 'src/main/tasklet.c'],
  [('shared stat jobs and TTL expiry', 'stat_cache.c')])
p('P25', 'Authentication decides by the current password file, per request',
  'With basic authentication (plain, htpasswd and htdigest files) a request is admitted if and only if its credentials are valid according to a version of the password file that was in place within the configured lifetime, however the file was put in place; while the file is missing, unreadable or malformed the last good version stays in force, and the current one is used within one lifetime after it can be read again. The user name seen by later actions belongs to that request only, a rejected request gets a challenge for the realm and none of the protected content, and unprotected requests are not affected.',
  ['histories', 'schedules', 'inputs'], 'all moments of file replacement, all workers, all credential forms of the generator', 'The auth test uses one constant file.',
  ['src/modules/mod_auth.c'], [('cached user data file with TTL', 'mod_auth.c')])
p('P26', 'Server statistics match what was served',
  'The request, byte, connection and response-status counters reported by mod_status agree with what the clients observed (rejected requests count as requests, status codes are counted for requests that were handled): exactly when the server is idle, and for a query made while traffic runs on several workers never below what had completed before the query started nor above what had begun when it was answered; averages equal totals over uptime; reading the counters never blocks or corrupts anything.',
  ['schedules', 'histories'], 'all interleavings of status requests with traffic over several workers', 'No status test exists.',
  ['src/modules/mod_status.c', 'src/main/collect.c', 'src/main/worker.c'], [('cross-worker collect', 'collect.c'), ('per worker counters', 'worker.c')])
p('P27', 'Upload progress reports are truthful',
  'A progress query for a tracked request reports unknown, running, done or error (with the status sent) consistently with the real state of that request at some moment during the query; the reported request size is the Content-Length sent, the byte counts never exceed what was transferred and never decrease, and a finished request is remembered for the configured time and then forgotten.',
  ['schedules', 'histories'], 'all interleavings of a tracked request with queries on any worker', 'No test exists for mod_progress.',
  ['src/modules/mod_progress.c', 'src/main/collect.c'], [('per worker hash tables + collect', 'mod_progress.c')])
p('P28', 'A supervised worker follows the commands of the angel',
  'A worker started by the angel reports its states in a legal order and, whatever commands arrive at whatever moment, reaches the state of the last one in bounded time: when suspended it accepts nothing and closes idle kept-alive connections, when told to run it serves clients that connected meanwhile, on every listening socket it got. Requests it had received before being suspended or stopped get their complete response, connections are not cut while it runs, calls it does not know are answered with an error, calls the angel refuses or never answers do no harm, and SIGTERM in any state ends the process.',
  ['schedules', 'histories', 'inputs'], 'all sequences and timings of run, warmup, suspend and SIGTERM relative to transitions and traffic, all segmentations of the control stream', 'No test runs the worker with an angel.',
  ['src/main/server.c', 'src/main/worker.c', 'src/main/angel.c', 'src/common/angel_connection.c'],
  [('state machine with pending transitions', 'server.c li_server_goto_state'), ('control connection', 'src/main/angel.c, angel_connection.c')])
p('P29', 'Data is relayed promptly and with bounded buffering',
  'While a response is relayed from a backend, or a request body with buffer_request_body off to a backend, every byte one side has sent reaches the other side without waiting for more data. When the receiver does not read, the server stops reading from the sender once the memory limit for that direction is used up (io.buffer_out / io.buffer_in, 256 KiB by default, 0 for unlimited), over plain TCP and over TLS, and goes on as soon as the receiver reads again: whatever the limit, the transfer completes with exactly the bytes that were sent.',
  ['schedules', 'inputs'], 'all piece sizes, pauses of either side, limits, backend kinds, transports and interleavings of reads, writes and limit changes', 'Tests never pause a peer in the middle of a large transfer or look at how much the server has read.',
  ['src/main/stream.c', 'src/main/chunk.c', 'src/main/connection.c', 'src/main/virtualrequest.c', 'src/main/stream_http_response.c', 'src/modules/fastcgi_stream.c', 'src/modules/openssl_filter.c', 'src/modules/gnutls_filter.c'],
  [('limit accounting and locking', 'chunk.c cqlimit_update, li_chunkqueue_skip, li_chunkqueue_steal_len'), ('limit propagation along a chain', 'stream.c li_stream_set_cqlimit, li_stream_connect'), ('stop and resume reading', 'stream.c iostream_in_cb'), ('limit of encrypted data', 'openssl_filter.c do_ssl_write, gnutls_filter.c do_gnutls_write')])
p('P30', 'Lua scripts act on their own request only and replaced scripts come into use',
  'Each request handled by a Lua script (lua.handler, include_lua, lighty.filter_out, filters added with vr:add_filter_out) gets exactly the answer that script computes from this very request: script globals and the per-request table last from the first to the last call for one request and are never seen by another one, whatever the other requests and workers do at the same time. When the file of a lua.handler is replaced, rewritten or removed while the server runs, each request is answered by one version that was in place within the configured ttl plus the stat cache ttl, the latest version is in use after that time, and versions which do not parse, fail while loading, define no action or fail at run time affect only their own requests: once the file is right again requests are answered again and nothing is left behind. Bodies made with add_file are exactly the requested part of the file, and an impossible part raises an error in the script.',
  ['histories', 'schedules', 'inputs'], 'all histories of script versions, interleavings of requests of several workers, script errors, file parts and requests', 'Tests load good scripts once and ask them one request at a time.',
  ['src/modules/mod_lua.c', 'src/main/core_lua.c', 'src/main/actions_lua.c', 'src/main/filters_lua.c', 'src/main/config_lua.c', 'src/main/chunk_lua.c', 'src/main/environment_lua.c', 'src/main/virtualrequest_lua.c'],
  [('per-request environments and globals', 'core_lua.c li_lua_environment_activate/restore'), ('reload of changed scripts', 'mod_lua.c lua_handle'), ('loading a script', 'config_lua.c li_config_lua_load'), ('filters', 'filters_lua.c li_lua_vrequest_add_filter_in/out'), ('file parts', 'chunk_lua.c lua_chunkqueue_add_file')])
NA = [
 ('P90', 'Document root containment and path normalisation',
  'No request target, however encoded, makes the server open a file outside the configured document root.',
  ['inputs'], 'all request targets', 'Tests sample a few paths.', ['src/main/url_parser.rl', 'src/main/utils.c', 'src/main/plugin_core.c'], [('path simplification', 'utils.c li_path_simplify')],
  'A pure function of one input string: there is no schedule, clock, I/O fault or crash point for a simulator to vary, so seeded schedule/fault search adds nothing over plain input generation.'),
 ('P91', 'Configuration, rewrite, redirect, vhost and pattern evaluation',
  'Configuration text is parsed to the action tree the documentation defines, and rewrite, redirect, vhost and pattern actions map each request to the documented result.',
  ['inputs', 'programs'], 'all configurations and requests', 'Tests sample a few configurations.', ['src/main/config_parser.rl', 'src/main/pattern.c', 'src/modules/mod_rewrite.c', 'src/modules/mod_redirect.c', 'src/modules/mod_vhost.c'], [('parser and pattern evaluation', 'config_parser.rl, pattern.c')],
  'Sequential, deterministic evaluation of in-memory data without time, I/O or concurrency; deterministic simulation has no nondeterminism to control.'),
 ('P92', 'Address matching structures are exact',
  'Radix tree and IP range lookups return exactly the configured entry for every address.',
  ['inputs'], 'all addresses and prefixes', 'Unit tests sample a few prefixes.', ['src/common/radix.c', 'src/common/ip_parsers.rl'], [('radix tree', 'radix.c')],
  'Pure data structure without concurrency, time or I/O: input-space question, not a schedule or fault question.'),
]
