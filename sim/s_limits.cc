// Connection limit (derived from the descriptor limit) and descriptor exhaustion.
#include "harness.h"
#include <algorithm>
using namespace sim;
namespace {
int max_con; bool trouble_possible; int trouble_now; vtime trouble_end = -1;
std::vector<Stream *> acc; std::map<Stream *, std::shared_ptr<bool>> live;
int served_now() {
	int n = 0; std::vector<Stream *> keep;
	for (Stream *s : acc) { if (!*live[s]) { live.erase(s); continue; } keep.push_back(s); if (!s->shut_wr) ++n; }
	acc = keep; return n;
}
struct OneShot : Peer {      // tiny backend
	std::string in; bool over = false; static int open_now;
	OneShot() { ++open_now; }
	void gone() { if (!over) { over = true; --open_now; } }
	void on_data(const char *p, size_t n) override {
		in.append(p, n); if (in.find("\r\n\r\n") == std::string::npos || over) return;
		after(pick_log("lb.delay", 0, 3000) * MS, [this]() { if (!over) s->send("HTTP/1.1 200 OK\r\nContent-Length: 7\r\n\r\nbackend"); });
	}
	void on_eof() override { s->close(); gone(); }
	void on_reset() override { gone(); }
};
int OneShot::open_now = 0;
vtime starve_since = -1;
void watch() {
	Listen *l = find_listener(listen_addr);
	// pending connections and enough room: they have to be taken soon
	bool starving = l && !l->q.empty() && live_sut_conns <= max_con - max_con / 8 - (max_con / 8 == 0 ? 1 : 0) && !trouble_now;
	static int seen = 0; if (accept_count != seen) { seen = accept_count; starve_since = -1; }
	if (!starving) starve_since = -1; else if (starve_since < 0) starve_since = now();
	if (starving && now() - std::max(starve_since, trouble_end) > 3 * SEC + stalled_total) violation("P12,P10", "accept-stall", "%zu connection(s) wait to be accepted for %.1f s although only %d of %d are in use", l->q.size(), (now() - starve_since) / 1e9, live_sut_conns, max_con);
	after(100 * MS, watch);
}
int trouble_left;
void begin_trouble(vtime t, std::function<void()> f) { after(t, [f]() { if (accept_count == 0) begin_trouble(20 * MS, f); else f(); }); }   // not during startup
std::map<std::string, std::string> files;
BackendListener bl;
}
static void limits_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	c.modules = {"mod_proxy"}; vfs_mkdirs("/var/tmp");
	max_con = 1 + pick_log("lm.max", 1, 40); rlimit_nofile = max_con * 4 + decide("lm.rem", 4);
	c.setup = strf("keepalive.timeout %d;\n", decide("lm.ka", 2) ? 5 : 20);
	files["/probe"] = "probe-ok\n"; vfs_put("/vfs/www/probe", files["/probe"]);
	for (int i = 0; i < 3; ++i) { std::string p = strf("/f%d", i); files[p] = content(60 + i, pick_log("lm.size", 10, 60000)); vfs_put("/vfs/www" + p, files[p]); }
	c.actions = "docroot \"/vfs/www\";\nif req.path =^ \"/b\" { proxy \"127.0.0.1:9001\"; } else if req.path =^ \"/r\" { respond 200 => \"resp\"; }\n";
	bl.policy = []() { return CP_OK; }; bl.accept = []() -> Peer * { return new OneShot; }; bl.link = []() { LinkOpts o; return o; };
	net_backend("127.0.0.1:9001", &bl);
	write_config(c);
	on_sut_accept = [](Stream *s) {
		int n = served_now() + 1;
		acc.push_back(s); live[s] = s->alive;
		if (n > max_con) violation("P12", "over-limit", "%d client connections open, limit is %d", n, max_con);
		if (n == max_con) probe("limit_reached");
	};
	when_listening([]() {
		bool f = !cfg.faults_off;
		int nc = 1 + pick_log("lm.n", 1, std::min(90, max_con * 3));
		vtime spread = pick_log("lm.spread", 1, 60000);
		trouble_possible = f && chance("lm.emfile", 0.5);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->malformed_prop = "P12,P02"; k->link = rand_link(); k->link.bw = 0; k->link.lat = std::min<vtime>(k->link.lat, 20 * MS); k->link.rcvcap = std::max<size_t>(k->link.rcvcap, 2048);
			int nr = 1 + decide("lm.nr", 4);
			for (int j = 0; j < nr; ++j) {
				Req q; int kind = weighted("lm.kind", {3, 2, 2}); std::string want; bool needs_fd = kind != 1;
				if (kind == 0) { auto it = files.begin(); std::advance(it, decide("lm.file", files.size())); want = it->second; q.name = it->first; }
				else if (kind == 1) { q.name = "/r"; want = "resp"; } else { q.name = "/b"; want = "backend"; }
				q.bytes = req("GET", q.name, "Host: h\r\n");
				if (chance("lm.trickle", 0.15)) { q.trickle = 10; q.gap = pick_log("lm.gap", 1, 1000) * MS; }
				q.think = chance("lm.think", 0.4) ? pick_log("lm.thinkms", 1, 4000) * MS : 0;
				int id = k->id; std::string nm = q.name;
				q.check = [want, id, nm, needs_fd](Response &r) {
					if (r.status != 200) {
						if (needs_fd && trouble_possible && r.status >= 400 && (trouble_now || now() < trouble_end + 15 * SEC + stalled_total)) { stat_add("error_while_out_of_fds", 1); return; }
						if (r.status == 503 && nm == "/b" && stalled_total >= 4 * SEC) { stat_add("connect_timeout_by_stall", 1); return; } // (a stalled process finds its connect timeout expired)
						violation("P12,P01", "status", "client %d %s: status %d", id, nm.c_str(), r.status);
					}
					if (r.body != want) violation("P12,P01,P05", "content", "client %d %s: wrong body", id, nm.c_str());
				};
				k->reqs.push_back(q);
			}
			int fate = weighted("lm.fate", {4, 2, 1, 1, 1});
			if (fate == 1) k->on_all = [](Client *) {};                      // keeps the connection until the server closes it
			if (fate == 2) { k->abort_at = pick_log("lm.abort", 1, 5000) * MS; k->abort_rst = decide("lm.rst", 2); }
			if (fate == 3) { Req &q = k->reqs.back(); size_t e = q.bytes.find("\r\n\r\n"); q.bytes.insert(e, "\r\nConnection: close"); }
			if (fate == 4) { vtime d = pick_log("lm.hold", 1, 15000) * MS; k->on_all = [d](Client *c) { after(d, [c]() { if (!c->over) { c->s->close(); c->finish(Client::DONE); } }); }; }
			k->on_end = [](Client *k) {
				stat_add("responses", k->got);
				if (k->end == Client::DONE || k->end == Client::ABORTED) return;
				if (k->all_answered()) return;
				bool idle_gap = false; // the next request may cross the keep-alive close on the wire
				if (k->got < k->reqs.size() && k->reqs[k->got].started && k->got > 0 && k->reqs[k->got].t_sent - k->t_last_resp > 3 * SEC) idle_gap = true;
				if (k->got > 0 && k->saw_close) return;
				if (idle_gap || (k->got < k->reqs.size() && k->got > 0 && k->reqs[k->got].think > 3 * SEC)) return;
				if (stalled_total && k->got > 0) return;
				violation("P12,P02", "conn-broken", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end);
			};
			track(k);
			after(pick("lm.start", 0, spread) * MS, [k]() { k->start(listen_addr); });
		}
		if (trouble_possible) {
			int n = 1 + decide("lm.nt", 4);
			for (int i = 0; i < n; ++i) {
				vtime t = pick("lm.t", 0, spread + 2000) * MS, d = pick_log("lm.td", 1, 4000) * MS; int room = decide("lm.room", 6);
				int kind = decide("lm.tk", 2);
				++trouble_left;
				begin_trouble(t, [room, kind, d]() { tr("out of descriptors"); ++trouble_now; probe("fd_exhaustion"); if (kind) { set_fault("accept_emfile", 0.7); set_fault("socket_emfile", 0.7); set_fault("open_emfile", 0.5); } else fd_limit = fd_open_count() + room;
				after(d, []() { --trouble_left; tr("descriptors available"); if (--trouble_now == 0) { fd_limit = 1000; set_fault("accept_emfile", 0); set_fault("socket_emfile", 0); set_fault("open_emfile", 0); trouble_end = now(); } }); });
			}
		}
		watch();
		nontrivial(nc * 100 + max_con);
		EndOpts o; o.live_prop = "P12,P02,P10"; o.client_deadline = 1500 * SEC;
		o.extra_done = []() { return trouble_left == 0 && (trouble_end < 0 || now() > trouble_end + 12 * SEC); };
		o.idle_cond = []() { return OneShot::open_now ? strf("%d backend connection(s) still open although no request is left", OneShot::open_now) : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("limits", limits_setup);
