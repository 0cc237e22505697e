// Timeouts: idle kept-alive connections, peers that stop reading or writing, keep-alive request limits.
#include "harness.h"
#include <algorithm>
using namespace sim;

namespace {
struct Echo2 : Peer {      // answers after `delay`
	std::string in; bool head = false; size_t want = 0; bool over = false; vtime delay;
	static int open_now;
	Echo2(vtime d) : delay(d) { ++open_now; }
	void gone() { if (!over) { over = true; --open_now; } }
	void on_data(const char *p, size_t n) override {
		in.append(p, n);
		if (!head) {
			size_t e = in.find("\r\n\r\n"); if (e == std::string::npos) return;
			std::string h = in.substr(0, e + 2); in.erase(0, e + 4); head = true;
			std::string l; for (char c : h) l += tolower(c);
			size_t c = l.find("\r\ncontent-length:"); if (c != std::string::npos) want = atoll(l.c_str() + c + 17);
		}
		if (head && in.size() == want) after(delay, [this]() { if (over) return; std::string b = strf("got %zu", want); s->send(strf("HTTP/1.1 200 OK\r\nContent-Length: %zu\r\n\r\n", b.size()) + b); });
	}
	void on_eof() override { s->close(); gone(); }
	void on_reset() override { gone(); }
};
int Echo2::open_now = 0;
int T, K, N;               // io.timeout, keepalive.timeout, keepalive.requests
vtime slack() { return 3 * SEC + stalled_total; }
std::map<std::string, std::string> files;

// One step of a client: send some bytes, wait, stop reading, read again, ...
struct TClient : Peer {
	int id; LinkOpts link; std::string from; RespParser rp;
	struct Step { int kind; std::string data; vtime wait; };   // 0 send, 1 wait, 2 wait until every request so far is answered, 3 stop reading, 4 resume reading, 5 stall forever
	std::vector<Step> steps; size_t pc = 0; int sent = 0, got = 0; std::vector<std::pair<std::string, std::string>> expect;  // name, body
	uint64_t srv_rx = 0, cur_start = 0, out = 0; bool was_gone = false, over = false, waiting = false, partial = false, stalled = false, saw_close = false, paused = false, conn = false; vtime t_conn = 0;
	uint64_t last_io = ~0ull; vtime last_io_t = 0, last_client_t = 0; std::string how;
	std::function<void(TClient *)> on_over;
	void start() {
		rp.on_response = [this](Response &r) {
			tr("tclient %d resp %d body %lld conn %s", id, r.status, (long long)r.body.size(), r.get("Connection").c_str());
			if (got >= (int)expect.size()) violation("P08,P02", "extra", "client %d: more responses than requests", id);
			auto &e = expect[got++];
			if (r.status != 200 && !(r.status == 503 && stalled_total >= 5 * SEC)) violation("P08,P01", "status", "client %d: %s answered %d", id, e.first.c_str(), r.status);
			if (r.status == 200 && r.body != e.second) violation("P08,P01", "content", "client %d: wrong body for %s", id, e.first.c_str());
			bool close = ieq(r.get("Connection"), "close");
			if (close) saw_close = true;
			bool must = (N > 0 && got >= N) || K == 0;
			if (must && !close) violation("P08", "limit", "client %d: response %d does not announce close although keepalive.requests is %d and keepalive.timeout %d", id, got, N, K);
			if (!must && close) violation("P08", "limit", "client %d: response %d announces close although keepalive.requests is %d and keepalive.timeout %d", id, got, N, K);
			if (got >= sent && !partial) cur_start = out;
			if (waiting && got >= sent) { waiting = false; after(0, [this]() { step(); }); }
		};
		for (size_t i = 0; i < expect.size(); ++i) rp.head_reqs.push_back(false);
		net_connect(listen_addr, this, from, link);
	}
	void finish(const char *h) { if (over) return; over = true; how = h; tr("tclient %d over %s", id, h); if (on_over) on_over(this); }
	void on_connect() override { conn = true; t_conn = last_io_t = last_client_t = now(); step(); monitor(); }
	void step() {
		while (!over && pc < steps.size()) {
			Step &st = steps[pc++];
			if (st.kind == 0) { s->send(st.data); out += st.data.size(); last_client_t = now(); }
			else if (st.kind == 1) { vtime w = st.wait; after(w, [this]() { step(); }); return; }
			else if (st.kind == 2) { if (got < sent) { waiting = true; return; } }
			else if (st.kind == 3) { s->pause(); paused = true; }
			else if (st.kind == 4) { paused = false; s->resume(); if (over) return; }
			else if (st.kind == 5) { stalled = true; return; }
			else if (st.kind == 6) ++sent;      // the request is complete now
			else if (st.kind == 7) partial = st.wait;
		}
		if (!over && pc >= steps.size() && !waiting) { s->close(); finish("done"); }
	}
	// Watches the server side of the connection: bytes moved and the moment the server gives it up.
	void monitor() {
		if (over) return;
		Conn *c = s->c; Stream *ss = c->sock[1];
		if (was_gone && c->rst_arrived[0]) { finish("reset"); return; }     // what was still unread is lost, nothing to judge
		if (c->gone[1]) { if (!was_gone) closed_by_server(); if (!over) after(20 * MS, [this]() { monitor(); }); return; }
		if (ss) {
			srv_rx = ss->rx; uint64_t io = ss->rx * 1000003 + ss->tx;
			if (io != last_io) { last_io = io; last_io_t = now(); }
			vtime idle = now() - std::max(last_io_t, t_conn);
			bool ka = ka_idle();
			vtime max = (ka ? K : T) * SEC + slack() + (ka ? 1 : 0) * SEC;
			if (ka && paused) max = std::max(K, T) * SEC + slack() + 1 * SEC;
			if (paused && !stalled) max = std::max<vtime>(max, (K + 12) * SEC + slack());   // whether the response was complete is not known here
			if (!saw_close && idle > max && !(waiting && !paused && !partial)) violation("P08", "late", "client %d: connection without any progress for %.1f s still open (%s, io.timeout %d, keepalive.timeout %d)", id, idle / 1e9, ka ? "idle kept-alive" : "request in progress", T, K);
		}
		after(20 * MS, [this]() { monitor(); });
	}
	// the server has not seen any byte of a request that is not answered yet
	bool ka_idle() { return cur_start > 0 && srv_rx <= cur_start; }
	void closed_by_server() {
		if (over) return;
		if (saw_close) { finish("closed"); return; }
		vtime idle = now() - std::max(last_io_t, t_conn);
		bool ka = ka_idle(); vtime min = (ka ? K * SEC : (T - 1) * SEC) - 300 * MS - stalled_total;
		if (ka && out > cur_start && stalled_total >= SEC) min = std::min(K, T - 1) * SEC - 300 * MS - stalled_total;      // (a stalled server reads a request and times it out in one go)
		Half &hh = s->c->h[1];
		if (!ka && !stalled && (paused || hh.snd.size() || hh.inflight || hh.rcv.size())) {      // the client cannot tell yet whether the response was complete
			if (!was_gone) { was_gone = true; tr("tclient %d closed while not reading", id); }
			return;
		}
		if (was_gone && !ka) {
			if ((got < sent || partial) && stalled_total < 500 * MS) violation("P08", "early", "client %d: connection closed although the client never stopped for longer than %d s (io.timeout %d)", id, T - 2, T);
			finish("closed while not reading"); return;
		}
		if (idle < min) violation("P08", "early", "client %d: server closed the connection %.2f s after its last progress (%s, io.timeout %d, keepalive.timeout %d)", id, idle / 1e9, ka ? "idle kept-alive" : "request in progress", T, K);
		stat_add(ka ? "closed_keepalive" : "closed_io", 1);
		finish(ka ? "keepalive timeout" : "io timeout");
	}
	void on_data(const char *p, size_t n) override { last_client_t = now(); if (!rp.feed(p, n) && !over) violation("P08,P02", "malformed", "client %d: %s", id, rp.error.c_str()); }
	void on_eof() override {
		rp.eof(); if (over) return;
		closed_by_server(); s->close(); if (!over) finish("eof");
	}
	void on_reset() override { closed_by_server(); }
	void on_refused(int) override { harness_error("refused"); }
};
std::vector<TClient *> tcs;
void send_slow(TClient *k, const std::string &b) {   // split into pieces with gaps below the timeout
	size_t off = 0; int n = decide("tm.pieces", 5); k->steps.push_back({7, "", 1});
	for (int i = 0; i < n && off < b.size(); ++i) {
		size_t m = 1 + decide("tm.piece", b.size() - off);
		k->steps.push_back({0, b.substr(off, m), 0}); off += m;
		if (off < b.size()) k->steps.push_back({1, "", pick_log("tm.gap", 1, std::max(2, (T - 2) * 1000)) * MS});
	}
	k->steps.push_back({0, b.substr(off), 0}); k->steps.push_back({6, "", 0}); k->steps.push_back({7, "", 0});
}
}
static BackendListener tl;
static void time_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	T = pick_log("tm.T", 3, 25); K = chance("tm.k5", 0.4) ? 5 : pick_log("tm.K", 0, 20); N = chance("tm.n", 0.4) ? 1 + decide("tm.N", 4) : 0;
	c.modules = {"mod_proxy"};
	vfs_mkdirs("/var/tmp");
	for (int i = 0; i < 3; ++i) { std::string p = strf("/f%d", i); files[p] = content(30 + i, i == 0 ? 500 : pick_log("tm.size", 1000, 900000)); vfs_put("/vfs/www" + p, files[p]); }
	vfs_put("/vfs/www/probe", "probe-ok\n");
	bool in_setup = chance("tm.insetup", 0.5);
	std::string opts = strf("keepalive.timeout %d;\nkeepalive.requests %d;\n", K, N);
	c.setup = strf("io.timeout %d;\n", T) + (in_setup ? opts : "");
	c.actions = (in_setup ? "" : opts) + "docroot \"/vfs/www\";\nif req.path =^ \"/b/\" { proxy \"127.0.0.1:9001\"; }\n";
	tl.policy = []() { return CP_OK; }; tl.accept = []() -> Peer * { return new Echo2(pick_log("tm.bdelay", 0, (T - 2) * 700) * MS); };
	net_backend("127.0.0.1:9001", &tl);
	write_config(c);
	when_listening([]() {
		int nc = 1 + decide("tm.n", 7);
		for (int i = 0; i < nc; ++i) {
			TClient *k = new TClient; k->id = i; k->from = strf("10.2.0.%d:%d", i + 1, 41000 + i); k->link = rand_link(); k->link.bw = 0; k->link.lat = std::min<vtime>(k->link.lat, 5 * MS); k->link.jitter = std::min<vtime>(k->link.jitter, 5 * MS); k->link.sndcap = std::min<size_t>(k->link.sndcap, 32768); k->link.rcvcap = std::max<size_t>(k->link.rcvcap, 4096);
			int nr = decide("tm.nr", 5); if (N > 0 && nr > N) nr = N; if (K == 0 && nr > 1) nr = 1;
			int fate = weighted("tm.fate", {3, 2, 2, 2, 2});   // after nr requests: 0 close, 1 idle until closed, 2 stall in a header, 3 stall in a body, 4 stop reading
			if (nr == 0 && fate == 0) nr = 1;
			for (int j = 0; j < nr; ++j) {
				if (j && chance("tm.idle", 0.5)) k->steps.push_back({1, "", pick_log("tm.idlems", 1, std::max(1, K * 1000 - 600)) * MS});
				if (chance("tm.post", 0.3)) {
					size_t n = pick_log("tm.body", 1, 50000); k->expect.push_back({strf("POST %d", j), strf("got %zu", n)});
					send_slow(k, req("POST", strf("/b/%d", j), strf("Host: h\r\nContent-Length: %zu\r\n", n), content(9, n)));
					k->steps.push_back({2, "", 0});
				} else {
					auto it = files.begin(); std::advance(it, decide("tm.file", files.size()));
					k->expect.push_back({"GET " + it->first, it->second});
					bool slow = chance("tm.slowread", 0.4);
					if (slow) k->steps.push_back({3, "", 0});
					send_slow(k, req("GET", it->first, "Host: h\r\n"));
					if (slow) { int np = 1 + decide("tm.np", 4); for (int q = 0; q < np; ++q) { k->steps.push_back({1, "", pick_log("tm.rgap", 1, std::max(2, (T - 2) * 1000 - 500)) * MS}); k->steps.push_back({4, "", 0}); if (q + 1 < np) { k->steps.push_back({1, "", 300 * MS}); k->steps.push_back({3, "", 0}); } } }
					k->steps.push_back({2, "", 0});
				}
			}
			bool room = !(N > 0 && nr >= N) && !(K == 0 && nr >= 1);
			if (room || fate == 0 || fate == 1) {
				if (fate == 1) k->steps.push_back({5, "", 0});
				if (fate == 2) { std::string b = req("GET", "/f1", "Host: h\r\nX-Y: z\r\n"); size_t n = 1 + decide("tm.stallat", b.size() - 1); k->steps.push_back({7, "", 1}); k->steps.push_back({0, b.substr(0, n), 0}); k->steps.push_back({5, "", 0}); }
				if (fate == 3) { size_t n = 200000; std::string b = req("POST", "/b/x", strf("Host: h\r\nContent-Length: %zu\r\n", n)); k->steps.push_back({7, "", 1}); k->steps.push_back({0, b + content(4, decide("tm.bstall", n)), 0}); k->steps.push_back({5, "", 0}); k->expect.push_back({"never", ""}); }
				if (fate == 4) { vfs_put("/vfs/www/big", content(77, 3000000)); k->steps.push_back({3, "", 0}); k->steps.push_back({0, req("GET", "/big", "Host: h\r\n"), 0}); k->steps.push_back({6, "", 0}); k->steps.push_back({5, "", 0}); k->expect.push_back({"big", ""}); }
			} else k->steps.push_back({5, "", 0});
			tcs.push_back(k);
			k->on_over = [](TClient *k) { stat_add("responses", k->got); nontrivial(k->got * 31 + k->steps.size() * 7 + k->how.size()); };
			after(pick_log("tm.start", 0, 3000) * MS, [k]() { k->start(); });
		}
		EndOpts o; o.live_prop = "P08,P10"; o.client_deadline = 2000 * SEC;
		o.extra_done = []() { for (auto *k : tcs) if (!k->over) return false; return true; };
		o.idle_cond = []() { return Echo2::open_now ? std::string("backend connections still open") : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("timeouts", time_setup);
