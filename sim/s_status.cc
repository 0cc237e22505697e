// mod_status: counters against what went over the simulated network.
#include "harness.h"
#include <algorithm>
using namespace sim;
namespace {
uint64_t rx, tx, bad_bytes, started, answered, sure_started, cls[6], fin_cls[6]; bool aborts; int max_live; vtime t1; std::vector<Client *> normal; Client *fin; int nworkers; char seen_w[16]; bool dbg; uint64_t fin_tx, fin_req;
struct Slow : Peer { // backend that takes its time
	std::string in; bool over = false, busy = false; static int open_now; Slow() { ++open_now; }
	void gone() { if (!over) { over = true; --open_now; } }
	void on_data(const char *p, size_t n) override { in.append(p, n); if (!busy && in.find("\r\n\r\n") != std::string::npos) { busy = true; after(pick_log("st.slow", 1, 3000) * MS, [this]() { if (over) return; s->send(in.compare(0, 5, "HEAD ") ? "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok" : "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n"); in.clear(); busy = false; }); } }
	void on_eof() override { s->close(); gone(); } void on_reset() override { gone(); }
};
int Slow::open_now = 0; BackendListener sl;
struct Snap { vtime sent; uint64_t rx, tx, bad_bytes, answered; };
int64_t field(const std::string &b, const std::string &n, const std::string &sep = ": ") { size_t p = b.find("\n" + n + sep); if (p == std::string::npos) { if (b.compare(0, n.size() + sep.size(), n + sep) == 0) return atoll(b.c_str() + n.size() + sep.size()); violation("P26", "page", "status page has no field %s", n.c_str()); } return atoll(b.c_str() + p + 1 + n.size() + sep.size()); }
int64_t last_req = -1, last_out = -1, last_in = -1; vtime last_done = -1;
void bounds(const char *n, int64_t v, uint64_t lo, uint64_t hi) { if (v < (int64_t)lo || v > (int64_t)hi) violation("P26", "counter", "%s is reported as %lld, but was between %llu and %llu during the query", n, (long long)v, (unsigned long long)lo, (unsigned long long)hi); }
void uptime(int64_t u, vtime sent) { int64_t real = now() / SEC; /* since the process started: stalls during start count */ if (u < 1 || u > real + 3 || u < (sent - t1) / SEC - 3 - stalled_total / SEC) violation("P26", "uptime", "uptime %lld, really %lld s", (long long)u, (long long)real); }
void check(Response &r, const Snap &s, int form, bool last) {
	if (r.status != 200) violation("P26", "status", "status page: status %d", r.status);
	stat_add("queries", 1);
	const std::string &b = r.body;
	if (form == 0) {
		int64_t rq = field(b, "requests_abs"), out = field(b, "traffic_out_abs"), in = field(b, "traffic_in_abs"), con = field(b, "connections_abs"), up = field(b, "uptime");
		bounds("requests", rq, s.answered + 1, started); bounds("traffic out", out, s.tx, tx); bounds("traffic in", in, s.rx - std::min<uint64_t>(s.rx, bad_bytes), rx); bounds("connections", con, 1, max_live); uptime(up, s.sent);
		if (s.sent >= last_done) { if (rq < last_req || out < last_out || in < last_in) violation("P26", "decrease", "counters decreased"); last_req = rq; last_out = out; last_in = in; last_done = now(); }
		int64_t st = 0; for (auto *n : {"connection_state_start", "connection_state_read_header", "connection_state_handle_request", "connection_state_write_response", "connection_state_keep_alive", "connection_state_upgraded"}) st += field(b, n);
		if (st > con || field(b, "connection_state_handle_request") < 1) violation("P26", "states", "%lld connections in states, %lld connections", (long long)st, (long long)con);
		if (up > 0 && (field(b, "requests_avg") != rq / up || field(b, "traffic_out_avg") != out / up || field(b, "traffic_in_avg") != in / up)) violation("P26", "average", "averages do not match the totals and uptime");
		if (last) {
			bounds("requests (idle server)", rq, aborts ? fin_req + 1 : started, started); bounds("traffic out (idle server)", out, fin_tx, fin_tx); bounds("traffic in (idle server)", in, rx - bad_bytes, rx); /* what follows the error in a rejected request is only drained */ bounds("connections (idle server)", con, 1, 1);
			static const char *cn[] = {"status_1xx", "status_2xx", "status_3xx", "status_4xx", "status_5xx"};
			for (int i = 0; i < 5; ++i) { int64_t v = field(b, cn[i]); uint64_t n = fin_cls[i + 1]; if (v < (int64_t)n || (!aborts && v > (int64_t)n)) violation("P26", "codes", "%s is %lld, clients got %llu", cn[i], (long long)v, (unsigned long long)n); }
			stat_add("final", 1);
		}
	} else if (form == 1) {
		bounds("Total Accesses", field(b, "Total Accesses"), s.answered + 1, started); bounds("Total kBytes", field(b, "Total kBytes"), s.tx / 1024, tx / 1024); uptime(field(b, "Uptime"), s.sent);
		size_t p = b.find("Scoreboard: "), e = p == std::string::npos ? p : b.find('\n', p); if (e == std::string::npos) violation("P26", "page", "no scoreboard"); int64_t n = e - p - 12; bounds("scoreboard length", n, 1, max_live);
		if (field(b, "BusyServers") + field(b, "IdleServers") != n) violation("P26", "states", "busy and idle servers do not add up to the scoreboard");
	} else if (form == 5) { // mod_debug: connections
		if (b.find("</html>") == std::string::npos) violation("P26", "page", "debug page is cut");
		int n = 0; for (size_t p = 0; (p = b.find("\">debug</a>", p)) != std::string::npos; ++p) ++n; bounds("connections of the debug page", n, 1, max_live); stat_add("debug_pages", 1);
	} else if (form == 6) { // mod_debug: events; every worker waits for something
		int n = 0; for (size_t p = 0; (p = b.find("Event listener for worker ", p)) != std::string::npos; ++p) { ++n; seen_w[atoi(b.c_str() + p + 26) & 15] = 1; } if (n < 3 || b.back() != '\n') violation("P26", "page", "event page is cut: %d entries", n);
		for (int i = 0; i < nworkers; ++i) { if (!seen_w[i]) violation("P26", "page", "event page without worker %d", i); seen_w[i] = 0; } stat_add("event_pages", 1);
	} else if (b.find("</html>") == std::string::npos) violation("P26", "page", "status page is cut");
}
void again() { // the final query comes when nothing else is going on
	bool all = true; for (auto *k : normal) if (!k->over) all = false;
	if (!all || live_sut_conns) { after(500 * MS, again); return; }
	after(2 * SEC, []() { fin_tx = tx; fin_req = answered; std::copy(cls, cls + 6, fin_cls); max_live = 1; fin->start(listen_addr); });
}
void query(Req &q, int form, bool last) {
	Snap *s = new Snap; q.aux = (int64_t)(intptr_t)s; static const char *p[] = {"/status?format=plain", "/status?auto", "/status", "/status?refresh=1", "/status?mode=runtime", "/debug", "/events"}; std::string u = p[form]; if (form == 5 && decide("st.detail", 2)) u += strf("?%d_%d_-1_%s", decide("st.dw", nworkers), decide("st.dc", 3), chance("st.dbad", 0.2) ? "x" : "10.0.0.1"); q.name = u; q.bytes = req("GET", u, "Host: h\r\n");
	q.check = [s, form, last](Response &r) { check(r, *s, form, last); };
}
}
static void status_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); c.modules = {"mod_status", "mod_proxy"}; vfs_mkdirs("/var/tmp"); sl.policy = []() { return CP_OK; }; sl.accept = []() -> Peer * { return new Slow; }; net_backend("127.0.0.1:9001", &sl); if (c.workers < 2 && decide("st.w", 3)) c.workers = 2 + decide("st.nw", 3);
	nworkers = std::max(1, (int)c.workers); dbg = chance("st.dbg", 0.3); if (dbg) c.modules.push_back("mod_debug");
	vfs_put("/vfs/www/probe", "probe-ok\n"); int nf = 1 + decide("st.nf", 4); std::vector<size_t> sz; for (int i = 0; i < nf; ++i) { sz.push_back(pick_log("st.size", 1, 300000)); vfs_put(strf("/vfs/www/f%d", i), std::string(sz[i], 'a' + i)); }
	c.actions = std::string("keepalive.timeout 300;\ndocroot \"/vfs/www\";\n") + (dbg ? "if req.path == \"/debug\" { debug.show_connections; }\nif req.path == \"/events\" { debug.show_events; }\n" : "") + "if req.path == \"/status\" { status.info; } else if req.path == \"/moved\" { respond 301 => \"m\"; } else if req.path == \"/err\" { respond 503; } else if req.path == \"/slow\" { proxy \"127.0.0.1:9001\"; } else { static; }\n"; write_config(c);
	when_listening([f, nf, sz]() {
		on_sut_send = [](Stream *s, size_t n) { if (s->c->addr[1].str == listen_addr) tx += n; }; on_sut_recv = [](Stream *s, size_t n) { if (s->c->addr[1].str == listen_addr) rx += n; };
		std::function<void(Stream *)> prev; on_sut_accept = [](Stream *) { if (!t1) t1 = now(); max_live = std::max(max_live, live_sut_conns); };
		vtime span = pick_log("st.span", 50, 30000) * MS; int nc = 1 + decide("st.nc", 8);
		auto hooks = [](Client *k) {
			k->malformed_prop = "P26,P02"; k->on_sent = [](Client *, Req &q) { ++started; if (q.aux) { Snap *s = (Snap *)(intptr_t)q.aux; s->sent = now(); s->rx = rx; s->tx = tx; s->answered = answered; } };
			k->on_resp = [](Client *, Req &q, Response &r) { ++answered; if (q.name != "bad" && /* codes are counted for requests that were handled */ r.status >= 100 && r.status < 600) ++cls[r.status / 100]; };
			k->on_end = [](Client *k) { stat_add("responses", k->got); nontrivial(k->got * 3 + k->depth); if (k->end == Client::DONE || k->end == Client::ABORTED) return; if (k->got && k->saw_close) return; violation("P26,P02", "conn-broken", "%s: connection ended with state %d", k->desc().c_str(), (int)k->end); };
		};
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); normal.push_back(k); k->link = rand_link(); hooks(k); int nr = 1 + decide("st.nr", 12); if (chance("st.burst", 0.2)) k->depth = 3; bool q_only = chance("st.qonly", 0.2);
			for (int j = 0; j < nr; ++j) {
				Req q; q.think = chance("st.think", 0.6) ? pick_log("st.thinkms", 1, std::max<int64_t>(2, span / MS / nr * 2)) * MS : 0;
				if (q_only || chance("st.q", 0.25)) query(q, dbg && decide("st.dbgq", 2) ? 5 + decide("st.dbgk", 2) : weighted("st.form", {6, 2, 2, 1}), false);
				else {
					int w = weighted("st.what", {8, 1, 1, 1, 2}), x = decide("st.f", nf); bool head = chance("st.head", 0.1); q.head = head; std::string p = w == 0 ? strf("/f%d", x) : w == 1 ? "/missing" : w == 2 ? "/moved" : w == 3 ? "/err" : "/slow"; int want = w == 0 ? 200 : w == 1 ? 404 : w == 2 ? 301 : w == 3 ? 503 : 200; q.name = p; q.bytes = req(head ? "HEAD" : "GET", p, "Host: h\r\n"); size_t n = w == 0 ? sz[x] : 0;
					q.check = [want, n, head, p](Response &r) { if (r.status != want || (n && !head && r.body.size() != n)) violation("P26,P02", "answer", "%s: status %d, %d bytes", p.c_str(), r.status, (int)r.body.size()); };
				}
				k->reqs.push_back(q);
			}
			if (chance("st.bad", 0.25)) { // the last request is rejected and ends the connection
				Req q; q.think = chance("st.think", 0.6) ? 50 * MS : 0; q.expect_close = true; q.name = "bad"; int w = decide("st.badk", 4), want = w == 1 ? 414 : w == 2 ? 417 : 400; q.bytes = w == 0 ? "GET /f0 HTTP/1.1\r\nHost: h\r\nno colon\r\n\r\n" : w == 1 ? "GET /" + std::string(9000, 'u') + " HTTP/1.1\r\nHost: h\r\n\r\n" : w == 2 ? "POST /f0 HTTP/1.1\r\nHost: h\r\nContent-Length: 0\r\nExpect: x\r\n\r\n" : "GET /f0 HTTP/1.1\r\n\r\n";
				q.check = [want](Response &r) { if (r.status != want) violation("P26,P02", "answer", "rejected request: status %d instead of %d", r.status, want); }; bad_bytes += q.bytes.size(); k->reqs.push_back(q); stat_add("rejected", 1);
			}
			if (f && chance("st.abort", 0.08)) { aborts = true; k->abort_at = pick_log("st.abat", 1, 20000) * MS; k->abort_rst = chance("st.abrst", 0.5); }
			if (f && chance("st.abortrx", 0.05)) { aborts = true; k->abort_rx = pick_log("st.abrx", 1, 100000); k->abort_rst = chance("st.abrst", 0.5); }
			track(k); after((vtime)(span * (decide("st.st", 1000) / 1000.0)), [k]() { k->start(listen_addr); });
		}
		fin = new_client(); hooks(fin); Req q; query(q, 0, true); fin->reqs.push_back(q); track(fin); after(span, again);
		EndOpts o; o.live_prop = "P26,P10,P02"; run_to_end(o);
	});
}
static ScenarioReg r1("status", status_setup);
