// A termination signal at any moment: running requests finish, idle connections are closed, the process exits.
#include "harness.h"
#include <algorithm>
using namespace sim;

namespace {
struct FlowBackend : Peer {     // answers with a body that trickles in
	std::string in, body; bool head = false, over = false; size_t want = 0, off = 0; bool chunked = false;
	static int open_now; int mode = 0; bool hung = false;      // mode 1: never answers, 2: stops in the middle of its answer, 3: switches protocols and echoes
	FlowBackend() { ++open_now; }
	void gone() { if (!over) { over = true; --open_now; } }
	void on_data(const char *p, size_t n) override {
		if (mode == 3 && head) { s->send(std::string(p, n)); return; }
		in.append(p, n);
		if (!head) {
			size_t e = in.find("\r\n\r\n"); if (e == std::string::npos) return;
			head = true; std::string h = in.substr(0, e + 2), l; in.erase(0, e + 4); for (char c : h) l += tolower(c);
			size_t c = l.find("\r\ncontent-length:"); if (c != std::string::npos) want = atoll(l.c_str() + c + 17);
			unsigned key = 0; unsigned long sz = 0; size_t q = h.find("/b/"); if (q != std::string::npos) sscanf(h.c_str() + q, "/b/%u/%lu", &key, &sz);
			body = content(key, sz); mode = h.find("/b/u/") != std::string::npos ? 3 : h.find("?hang=1") != std::string::npos ? 1 : h.find("?hang=2") != std::string::npos ? 2 : 0;
			if (mode == 3) { after(pick_log("fb.delay", 0, 1200) * MS, [this]() { if (!over) { s->send("HTTP/1.1 101 Switching Protocols\r\nUpgrade: testproto\r\nConnection: Upgrade\r\n\r\n" + in); in.clear(); } }); return; }
		}
		if (mode == 1) { probe("backend_hangs"); return; }
		if (in.size() == want) {
			chunked = chance("fb.chunked", 0.4);
			after(pick_log("fb.delay", 0, 1200) * MS, [this]() {
				if (over) return;
				s->send(chunked ? "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" : strf("HTTP/1.1 200 OK\r\nContent-Length: %zu\r\n\r\n", body.size()));
				more();
			});
		}
	}
	void more() {
		if (over) return;
		if (mode == 2 && off >= body.size() / 2) { probe("backend_hangs"); return; }
		if (off >= body.size()) { if (chunked) s->send("0\r\n\r\n"); return; }
		size_t n = std::min<size_t>(body.size() - off, 1 + pick_log("fb.piece", 0, 60000));
		s->send(chunked ? strf("%zx\r\n", n) + body.substr(off, n) + "\r\n" : body.substr(off, n)); off += n;
		after(pick_log("fb.gap", 0, 1200) * MS, [this]() { more(); });
	}
	void on_eof() override { s->close(); gone(); }
	void on_reset() override { gone(); }
};
int FlowBackend::open_now = 0;
std::map<std::string, std::string> files;
vtime t_sig = -1;
struct Must { Client *c; size_t idx; };
std::vector<Must> cand, must;
bool stalls, no_stall_prop;
bool in_server(Client *c) {     // the current request has been read completely by the server
	if (c->over || !c->connected || c->next <= c->got || c->next - c->got != 1 || !c->reqs[c->got].t_full) return false;
	Stream *ss = c->s->c->sock[1]; if (!ss || ss->shut_wr) return false;   // (already closing: not a request any more)
	size_t tot = 0; for (size_t i = 0; i < c->next; ++i) tot += c->reqs[i].bytes.size();
	return ss->rx >= tot;
}
std::vector<Client *> cl;
void watch_exit(vtime last, uint64_t bytes) {
	if (net_bytes != bytes) { bytes = net_bytes; last = now(); }
	vtime idle = now() - std::max(last, t_sig);
	if (idle > 25 * SEC + stalled_total) violation("P11,P10", "shutdown-hang", "process still running %.0f s after SIGTERM and the last network traffic; open: %s", idle / 1e9, fd_describe().c_str());
	if (now() - t_sig > 3000 * SEC) violation("P11,P10", "shutdown-hang", "process still running %.0f s after SIGTERM", (now() - t_sig) / 1e9);
	static int seen = -1;
	if (!stalls) for (Client *k : cl) {      // once its response is delivered a connection is idle, and idle connections are closed
		if (k->over || !k->connected || k->pause_every || (k->got < k->next && k->reqs[k->got].started) || k->upgraded || !k->s || !k->s->c->sock[1]) continue;
		vtime since = std::max(t_sig, std::max(k->t_last_resp, k->s->c->sock[1] ? k->t_conn : 0));
		if (now() - since > 2500 * MS + slow_total) violation("P11", "kept-alive", "%s: idle connection still open %.1f s after SIGTERM and its last response", k->desc().c_str(), (now() - since) / 1e9);
	}
	if (now() - t_sig > 2 * SEC + stalled_total && !stalls) {
		if (seen >= 0 && accept_count > seen) violation("P11", "still-accepting", "accepted a connection %.1f s after SIGTERM", (now() - t_sig) / 1e9);
		seen = accept_count;
	}
	after(500 * MS, [last, bytes]() { watch_exit(last, bytes); });
}
}
static BackendListener fl;
static void shutdown_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	stalls = chance("sd.stalls", 0.3); if (!stalls) set_fault("stall", 0);
	c.modules = {"mod_proxy", "mod_status"}; vfs_mkdirs("/var/tmp");
	for (int i = 0; i < 4; ++i) { std::string p = strf("/f%d", i); files[p] = content(30 + i, pick_log("sd.size", 10, 400000)); vfs_put("/vfs/www" + p, files[p]); }
	c.actions = strf("keepalive.timeout %d;\n", decide("sd.k", 2) ? 5 : 60) + "docroot \"/vfs/www\";\nif req.path =^ \"/b/\" { proxy \"127.0.0.1:9001\"; }\nif req.path == \"/status\" { status.info; }\n";
	fl.policy = []() { return CP_OK; }; fl.accept = []() -> Peer * { return new FlowBackend; };
	net_backend("127.0.0.1:9001", &fl);
	if (chance("sd.debug", 0.2)) { c.modules.push_back("mod_debug"); c.setup += decide("sd.dbgrep", 2) ? strf("	debug.show_events_after_shutdown (%d, %d);\n", decide("sd.dbg1", 3), 1 + decide("sd.dbg2", 3)) : strf("	debug.show_events_after_shutdown %d;\n", decide("sd.dbg1", 4)); }
	write_config(c);
	when_listening([]() {
		bool manyidle = chance("sd.many", 0.25);   // several idle connections in each worker
		int nc = (manyidle ? 4 : 1) + decide("sd.n", 7); int served = decide("sd.moment", 3);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); cl.push_back(k); k->malformed_prop = "P11,P02";
			k->link = rand_link(); k->link.bw = 0; k->link.lat = std::min<vtime>(k->link.lat, 10 * MS); k->link.jitter = std::min<vtime>(k->link.jitter, 10 * MS); k->link.sndcap = std::min<size_t>(k->link.sndcap, 16384); k->link.rcvcap = std::max<size_t>(k->link.rcvcap, 4096);
			if (chance("sd.slow", 0.4)) { k->pause_every = pick_log("sd.pe", 2000, 100000); k->pause_for = pick_log("sd.pf", 1, 1000) * MS; k->pause_budget = 8 * SEC; }
			bool idler = manyidle && chance("sd.idler", 0.8); int nr = idler ? 1 : 1 + decide("sd.nr", 6);
			for (int j = 0; j < nr; ++j) {
				Req q; std::string want;
				int kind = idler ? 0 : weighted("sd.kind", {6, 6, 4, 4, 1, 1});
				if (kind == 5) {
					q.name = "upgrade"; q.bytes = req("GET", "/b/u/1", "Host: h\r\nConnection: Upgrade\r\nUpgrade: testproto\r\n"); 					auto *left = new int(decide("sd.chat", 12)); auto *sent = new std::string; auto *gotb = new size_t(0); vtime gap = pick_log("sd.chatgap", 1, 900) * MS;
					k->on_raw = [k, left, sent, gotb, gap](Client *, const char *p, size_t n) {
						if (*gotb + n > sent->size() || sent->compare(*gotb, n, p, n)) violation("P11,P23", "content", "%s: bytes after the upgrade differ from the echoed ones", k->desc().c_str());
						*gotb += n;
					};
					q.check = [k, left, sent, gap](Response &r) {
						if (r.status != 101) violation("P11,P23", "status", "upgrade answered %d", r.status);
						auto *f = new std::function<void()>; probe("upgraded");
						*f = [k, left, sent, gap, f]() { if (k->over || (*left)-- <= 0) return; std::string m = content(3, 1 + decide("sd.msg", 3000)); *sent += m; k->s->send(m); after(gap, *f); };
						(*f)();
					};
					k->reqs.push_back(q); break;
				}
				if (kind == 0) { auto it = files.begin(); std::advance(it, decide("sd.file", files.size())); want = it->second; q.name = it->first; q.bytes = req("GET", it->first, "Host: h\r\n"); }
				else if (kind == 4) { int key = 500 + k->id * 10 + j; size_t sz = pick_log("sd.bsz", 1, 150000); q.name = strf("/b/%d/%zu?hang=%d", key, sz, 1 + decide("sd.hang", 2)); q.bytes = req("GET", q.name, "Host: h\r\n"); want = content(key, sz); }
				else if (kind == 3) { q.name = "/status"; q.bytes = req("GET", "/status?format=plain", "Host: h\r\n"); }
				else {
					size_t sz = pick_log("sd.bsz", 0, 150000); int key = 500 + k->id * 10 + j; want = content(key, sz); q.name = strf("/b/%d/%zu", key, sz);
					if (kind == 1) q.bytes = req("GET", q.name, "Host: h\r\n"); else { size_t n = pick_log("sd.post", 1, 60000); q.bytes = req("POST", q.name, strf("Host: h\r\nContent-Length: %zu\r\n", n), content(1, n)); if (chance("sd.trickle", 0.4)) { q.trickle = 1 + n / 8; q.gap = pick_log("sd.tgap", 1, 900) * MS; } }
				}
				q.think = !idler && chance("sd.think", 0.4) ? pick_log("sd.thinkms", 1, 2000) * MS : 0;
				int id = k->id; std::string nm = q.name;
				q.check = [want, id, nm](Response &r) {
					if (nm.find("?hang=") != std::string::npos && (r.status == 503 || r.status == 504)) return;
					if (r.status != 200) violation("P11,P01,P05", "status", "client %d %s: status %d", id, nm.c_str(), r.status);
					if (nm == "/status") { if (r.body.find("requests_abs: ") == std::string::npos) violation("P11,P26", "content", "client %d: status page without counters", id); return; }
					if (r.body != want) violation("P11,P01,P05", "content", "client %d %s: wrong body (%zu bytes, expected %zu)%s", id, nm.c_str(), r.body.size(), want.size(), r.body.size() < want.size() ? ": an incomplete response looks complete" : "");
				};
				k->reqs.push_back(q);
			}
			int fate = idler ? 1 : weighted("sd.fate", {3, 2, 1, 1}); if (idler) k->pause_every = 0;
			if (fate == 1) k->on_all = [](Client *) {};                                                       // stays idle
			if (fate == 2) { Req q; q.name = "partial"; q.bytes = "GET /f0 HTTP/1.1\r\nHo"; k->reqs.push_back(q); }   // never completes its header
			if (fate == 3) { k->pause_every = 5000; k->pause_for = 100000 * SEC; k->pause_budget = 1 * SEC; }         // stops reading
			after(pick_log("sd.start", 0, idler ? 300 : 2500) * MS, [k]() { k->start(listen_addr); });
			(void)served;
		}
		vtime t = pick_log("sd.sig", manyidle ? 700 : 1, 7000) * MS + pick("sd.sigus", 0, 2000) * US;
		after(t - 5 * MS, []() { for (Client *c : cl) if (in_server(c)) cand.push_back({c, c->got}); });
		after(t, []() {
			t_sig = now(); tr("SIGTERM"); int running = 0;
			for (auto &m : cand) if (!m.c->over && m.c->got == m.idx && m.c->pause_for < 100 * SEC && m.c->reqs[m.idx].name != "partial" && m.c->reqs[m.idx].name != "upgrade" && m.c->reqs[m.idx].name.find("?hang=") == std::string::npos && !stalls) { must.push_back(m); ++running; }
			stat_add("running_at_signal", running); if (running) probe("signal_during_request");
			send_sigterm(); watch_exit(now(), net_bytes);
			// latecomers
			int n = decide("sd.late", 3); for (int i = 0; i < n; ++i) { Client *k = new_client(); cl.push_back(k); Req q; q.bytes = req("GET", "/f0", "Host: h\r\nConnection: close\r\n"); k->reqs.push_back(q); after(pick_log("sd.latems", 0, 3000) * MS, [k]() { k->start(listen_addr); }); }
		});
		on_main_return = []() {
			if (t_sig < 0) violation("P11,P10", "exit", "process exited without a signal");
			vtime took = now() - t_sig; (void)took;
			for (int fd = 0; fd < 1100; ++fd) if (is_simfd(fd) && fd_get(fd)) fd_close(fd);      // what the kernel does on exit
			auto all = []() { for (Client *c : cl) if (!c->over && c->s && (c->pause_for < 100 * SEC) && c->connected) return false; return true; };
			block_until("drain", all, now() + 100 * SEC);
			for (auto &m : must) if (m.c->got <= m.idx) violation("P11", "dropped", "%s: request %s was being processed when SIGTERM arrived but did not get its complete response (end state %d)", m.c->desc().c_str(), m.c->reqs[m.idx].name.c_str(), (int)m.c->end);
			size_t g = 0; for (Client *c : cl) g += c->got; stat_add("responses", g); stat_add("must", must.size()); nontrivial(g * 17 + must.size() * 3 + cl.size());
		};
	});
}
static ScenarioReg r1("shutdown", shutdown_setup);
