#include "world.h"
#include <strings.h>
#include <zlib.h>
#include <bzlib.h>
#include <algorithm>
#include <signal.h>
#include <dlfcn.h>

extern "C" int sim_mempool_malloc;
namespace sim {

bool ieq(const std::string &a, const std::string &b) { return a.size() == b.size() && !strcasecmp(a.c_str(), b.c_str()); }
std::string strf(const char *fmt, ...) {
	char b[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (n < (int)sizeof b) return std::string(b, n);
	std::string r(n + 1, 0); va_start(ap, fmt); vsnprintf(&r[0], n + 1, fmt, ap); va_end(ap); r.resize(n);
	return r;
}
std::string Response::get(const char *k) const { for (auto &x : h) if (ieq(x.k, k)) return x.v; return ""; }
bool Response::has(const char *k) const { for (auto &x : h) if (ieq(x.k, k)) return true; return false; }
int Response::count(const char *k) const { int n = 0; for (auto &x : h) if (ieq(x.k, k)) ++n; return n; }

std::string content(uint64_t key, size_t n) {
	std::string s; s.resize(n);
	// mixture: compressible text-like runs and pseudo random bytes, position dependent
	for (size_t i = 0; i < n; i += 8) {
		uint64_t v = mix(key * 1000003 + i / 8);
		if (((key >> 3) + (i >> 9)) & 1) { for (size_t j = i; j < n && j < i + 8; ++j) s[j] = "abcdefgh01234567"[(v >> (4 * (j & 7))) & 15]; }
		else for (size_t j = i; j < n && j < i + 8; ++j) s[j] = (char)(v >> (8 * (j & 7)));
	}
	return s;
}
bool gunzip(const std::string &in, std::string &out, int mode) {
	for (int attempt = 0; attempt < (mode == 0 ? 1 : 2); ++attempt) {
		z_stream z; memset(&z, 0, sizeof z);
		if (inflateInit2(&z, mode == 0 ? 31 : (attempt == 0 ? 15 : -15)) != Z_OK) return false;
		z.next_in = (Bytef *)in.data(); z.avail_in = in.size();
		out.clear(); char b[16384]; int r;
		do { z.next_out = (Bytef *)b; z.avail_out = sizeof b; r = inflate(&z, Z_NO_FLUSH); out.append(b, sizeof b - z.avail_out); } while (r == Z_OK && (z.avail_in || !z.avail_out));
		bool ok = r == Z_STREAM_END && z.avail_in == 0;
		inflateEnd(&z);
		if (ok) return true;
	}
	return false;
}
bool bunzip(const std::string &in, std::string &out) {
	bz_stream z; memset(&z, 0, sizeof z);
	if (BZ2_bzDecompressInit(&z, 0, 0) != BZ_OK) return false;
	z.next_in = (char *)in.data(); z.avail_in = in.size(); out.clear(); char b[16384]; int r;
	do { z.next_out = b; z.avail_out = sizeof b; r = BZ2_bzDecompress(&z); out.append(b, sizeof b - z.avail_out); } while (r == BZ_OK && (z.avail_in || !z.avail_out));
	bool ok = r == BZ_STREAM_END && z.avail_in == 0;
	BZ2_bzDecompressEnd(&z);
	return ok;
}

// ---- response parser ---------------------------------------------------------------------------------
static bool tok(char c) { return isalnum((unsigned char)c) || strchr("!#$%&'*+-.^_`|~", c); }
bool RespParser::feed(const char *p, size_t n) {
	if (!error.empty()) return false;
	buf.append(p, n);
	while (step()) {}
	return error.empty();
}
bool RespParser::head(const std::string &hd) {
	// status line
	size_t e = hd.find("\r\n");
	std::string sl = hd.substr(0, e);
	if (sl.size() < 12 || sl.compare(0, 7, "HTTP/1.") || !isdigit(sl[7]) || sl[8] != ' ' || !isdigit(sl[9]) || !isdigit(sl[10]) || !isdigit(sl[11]) || (sl.size() > 12 && sl[12] != ' ')) { error = "bad status line: " + sl.substr(0, 80); return false; }
	cur = Response(); cur.minor = sl[7] - '0'; cur.status = atoi(sl.c_str() + 9); cur.reason = sl.size() > 13 ? sl.substr(13) : ""; cur.t_first = now(); cur.raw_head = hd;
	size_t i = e + 2;
	while (i < hd.size()) {
		size_t j = hd.find("\r\n", i);
		std::string l = hd.substr(i, j - i); i = j + 2;
		if (l.empty()) break;
		size_t c = l.find(':');
		if (c == std::string::npos || c == 0) { error = "bad header line: " + l.substr(0, 80); return false; }
		for (size_t k = 0; k < c; ++k) if (!tok(l[k])) { error = "bad header name: " + l.substr(0, 80); return false; }
		std::string v = l.substr(c + 1);
		size_t a = v.find_first_not_of(" \t"); v = a == std::string::npos ? "" : v.substr(a);
		while (v.size() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
		for (char ch : v) if (ch == '\n' || ch == '\r' || ch == 0) { error = "control character in header value"; return false; }
		cur.h.push_back({l.substr(0, c), v});
	}
	cur.head_done = true; in_resp = true;
	bool is_head = head_reqs.empty() ? false : head_reqs.front();
	if (cur.status >= 100 && cur.status < 200 && cur.status != 101) { cur = Response(); in_resp = false; n1xx_pending++; return true; }
	if (head_reqs.empty()) { error = "response without an outstanding request: " + sl; return false; }
	cur.n1xx = n1xx_pending; n1xx_pending = 0;
	int ncl = cur.count("Content-Length");
	if (ncl > 1) { error = "several Content-Length headers"; return false; }
	std::string te = cur.get("Transfer-Encoding");
	if (ncl) { std::string v = cur.get("Content-Length"); if (v.empty() || v.find_first_not_of("0123456789") != std::string::npos) { error = "bad Content-Length: " + v; return false; } cur.clen = atoll(v.c_str()); }
	if (!te.empty()) { if (!ieq(te, "chunked")) { error = "unexpected Transfer-Encoding: " + te; return false; } cur.chunked = true; if (ncl) { error = "both Content-Length and Transfer-Encoding"; return false; } }
	if (is_head || cur.status == 204 || cur.status == 304 || cur.status == 101) { done(); return true; }
	if (cur.chunked) st = BODY_CHUNK_SZ;
	else if (cur.clen >= 0) { left = cur.clen; st = BODY_CL; if (!left) done(); }
	else { cur.until_close = true; st = BODY_EOF; }
	return true;
}
void RespParser::done() {
	cur.complete = true; cur.t_done = now();
	st = HEAD; in_resp = false;
	if (!head_reqs.empty()) head_reqs.pop_front();
	Response r = std::move(cur); cur = Response();
	if (on_response) on_response(r);
}
bool RespParser::step() {
	if (!error.empty()) return false;
	if (stopped) return false;
	switch (st) {
	case HEAD: {
		if (buf.empty()) return false;
		size_t e = buf.find("\r\n\r\n");
		if (e == std::string::npos) {
			// early detection of garbage
			std::string p = "HTTP/1."; size_t m = std::min(p.size(), buf.size());
			if (buf.compare(0, m, p, 0, m)) { error = "garbage where a status line was expected: " + buf.substr(0, 60); return false; }
			if (buf.size() > 65536) { error = "response head too long"; return false; }
			return false;
		}
		std::string h = buf.substr(0, e + 4); buf.erase(0, e + 4);
		return head(h);
	}
	case BODY_CL: {
		if (buf.empty()) return false;
		size_t m = std::min<size_t>(left, buf.size());
		cur.body.append(buf, 0, m); buf.erase(0, m); left -= m;
		if (!left) done();
		return !buf.empty();
	}
	case BODY_EOF: cur.body += buf; buf.clear(); return false;
	case BODY_CHUNK_SZ: {
		size_t e = buf.find("\r\n");
		if (e == std::string::npos) { if (buf.size() > 1000) error = "chunk size line too long"; return false; }
		std::string l = buf.substr(0, e); buf.erase(0, e + 2);
		size_t sc = l.find(';'); if (sc != std::string::npos) l = l.substr(0, sc);
		if (l.empty() || l.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) { error = "bad chunk size: " + l.substr(0, 40); return false; }
		left = strtoll(l.c_str(), nullptr, 16);
		st = left ? BODY_CHUNK : BODY_TRAILER;
		return true;
	}
	case BODY_CHUNK: {
		if (buf.empty()) return false;
		size_t m = std::min<size_t>(left, buf.size());
		cur.body.append(buf, 0, m); buf.erase(0, m); left -= m;
		if (!left) st = BODY_CHUNK_CRLF;
		return true;
	}
	case BODY_CHUNK_CRLF:
		if (buf.size() < 2) return false;
		if (buf[0] != '\r' || buf[1] != '\n') { error = "chunk data not followed by CRLF"; return false; }
		buf.erase(0, 2); st = BODY_CHUNK_SZ; return true;
	case BODY_TRAILER: {
		size_t e = buf.find("\r\n");
		if (e == std::string::npos) return false;
		std::string l = buf.substr(0, e); buf.erase(0, e + 2);
		if (l.empty()) done();
		return true;
	}
	}
	return false;
}
bool RespParser::eof() {
	if (st == BODY_EOF) { done(); return true; }
	return at_boundary();
}

// ---- server ---------------------------------------------------------------------------------------------
std::string listen_addr = "127.0.0.1:8080";
std::vector<std::string> sut_argv;
int baseline_fds = -1;
void leak_mark();
void note_baseline() { leak_mark(); baseline_fds = fd_leakable(); tr("baseline fds %d", baseline_fds); }
std::function<void()> on_main_return;

static std::vector<Scenario> &scen() { static std::vector<Scenario> v; return v; }
void add_scenario(const Scenario &s) { scen().push_back(s); }
Scenario *find_scenario(const std::string &n) { for (auto &s : scen()) if (n == s.name) return &s; return nullptr; }
void list_scenarios() { for (auto &s : scen()) printf("%s\n", s.name); }

void write_config(const ServerCfg &c) {
	std::string t = "setup {\n\tmodule_load [";
	for (size_t i = 0; i < c.modules.size(); ++i) t += (i ? ", \"" : " \"") + c.modules[i] + "\"";
	t += " ];\n";
	if (c.modules.empty()) t = "setup {\n";
	t += strf("\tworkers %d;\n", c.workers);
	t += "\tlisten \"" + c.listen + "\";\n";
	if (c.io_timeout >= 0) t += strf("\tio.timeout %d;\n", c.io_timeout);
	if (c.tasklet_threads >= -1 && c.tasklet_threads != -1) t += strf("\ttasklet_pool.threads %d;\n", c.tasklet_threads);
	if (c.stat_ttl >= 0) t += strf("\tstat_cache.ttl %g;\n", c.stat_ttl);
	t += c.setup;
	t += "}\n";
	t += c.actions;
	listen_addr = c.listen;
	vfs_put("/vfs/lighttpd.conf", t);
	if (trace_on) trace_text("config:\n%s", t.c_str());
	sut_argv = {"lighttpd2-worker", "-c", "/vfs/lighttpd.conf", "-m", getenv("SIM_MODDIR") ? getenv("SIM_MODDIR") : "."};
	for (auto &a : c.extra_args) sut_argv.push_back(a);
}
std::vector<std::string> more_listen;
// the listener is polled: it is bound while the configuration is being read, which can take long (stalled helper threads)
static bool polled(const std::string &a) { auto *l = find_listener(a); return l && !l->eps.empty(); }
static bool all_listening() { for (auto &a : more_listen) if (!polled(a)) return false; return polled(listen_addr); }
void when_listening(std::function<void()> f) {
	after(1 * MS, [f]() { if (all_listening()) after(20 * MS, [f]() { note_baseline(); f(); }); else { if (now() > 60 * SEC) violation("*", "startup", "server did not start listening within 60 s"); when_listening(f); } });
}
void send_sigterm() { if (!raise_signal(SIGTERM)) harness_error("no SIGTERM handler"); }

LinkOpts rand_link() {
	LinkOpts o;
	o.lat = (vtime)pick_log("link.lat", 20, 40000) * US;
	o.jitter = weighted("link.jit", {3, 1, 1}) * o.lat;
	static const size_t caps[] = {65536, 262144, 16384, 4096, 1500, 600};
	o.sndcap = caps[decide("link.sndcap", 6)];
	o.rcvcap = caps[decide("link.rcvcap", 6)];
	static const double sp[] = {0, 0.1, 0.5, 0.9};
	o.split = sp[decide("link.split", 4)];
	if (chance("link.slow", 0.1)) o.bw = pick_log("link.bw", 20000, 5000000);
	return o;
}
vtime late_grid;      // sleeping threads wake up together: many of them are runnable at once
void common_knobs(ServerCfg &c, bool with_faults) {
	sim_mempool_malloc = decide("knob.mempool", 2);
	c.workers = 1 + weighted("knob.workers", {5, 3, 2});
	static const int tl[] = {-1, 0, 1, 2};
	c.tasklet_threads = tl[decide("knob.tasklets", 4)];
	static const double sw[] = {0, 0.02, 0.2, 0.5};
	set_switch_rate(sw[decide("knob.switch", 4)]);
	if (!cfg.preempt_off) {
		static const double pr[] = {0, 0, 1e-5, 1e-4, 1e-3};
		set_preempt(pr[decide("knob.preempt", 5)]);
	}
	if (with_faults) {
		static const double r[] = {0, 0, 0.01, 0.05, 0.2};
		for (const char *f : {"short_read", "short_write", "eagain_read", "eagain_write", "eintr_read", "eintr_write"}) set_fault(f, r[decide("knob.iofault", 5)]);
		static const double r2[] = {0, 0, 0.001, 0.01};
		set_fault("epoll_eintr", r2[decide("knob.iofault2", 4)]);
		set_fault("accept_eagain", r2[decide("knob.iofault2", 4)]);
		static const double r3[] = {0, 0, 0, 0.0002, 0.002};
		set_fault("stall", r3[decide("knob.stall", 5)]);
		static const double r5[] = {0, 0.01, 0.05};
		set_fault("busy", r5[weighted("knob.busy", {8, 1, 1})]);
		static const double r4[] = {0, 0, 0.05, 0.3};
		set_fault("late_wakeup", r4[decide("knob.late", 4)]);
		static const vtime grid[] = {0, MS, 4 * MS, 10 * MS};
		late_grid = grid[weighted("knob.grid", {6, 1, 1, 1})];
		if (late_grid) set_fault("late_wakeup", 0.8);
	}
}
typedef size_t (*alloc_fn)(void);
int64_t sut_alloc_bytes() {
	static alloc_fn f = (alloc_fn)dlsym(RTLD_DEFAULT, "__sanitizer_get_current_allocated_bytes");
	return f ? (int64_t)f() : 0;
}
} // namespace sim
