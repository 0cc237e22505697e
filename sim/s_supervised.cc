// A worker started by the angel: control connection on descriptor 0, listening sockets received as descriptors, commands run/warmup/suspend at any moment.
#include "harness.h"
#include <algorithm>
#include <signal.h>
using namespace sim;

namespace {
struct SlowBackend : Peer {     // answers /b/<key>/<size> with a body that trickles in
	std::string in, body; bool over = false; size_t off = 0;
	void on_data(const char *p, size_t n) override {
		in.append(p, n);
		size_t e = in.find("\r\n\r\n"); if (e == std::string::npos || body.size()) return;
		unsigned key = 0; unsigned long sz = 0; size_t q = in.find("/b/"); if (q != std::string::npos) sscanf(in.c_str() + q, "/b/%u/%lu", &key, &sz);
		body = content(key, sz);
		after(pick_log("sb.delay", 0, 1500) * MS, [this]() { if (over) return; s->send(strf("HTTP/1.1 200 OK\r\nContent-Length: %zu\r\n\r\n", body.size())); more(); });
	}
	void more() {
		if (over || off >= body.size()) return;
		size_t n = std::min<size_t>(body.size() - off, 1 + pick_log("sb.piece", 0, 60000));
		s->send(body.substr(off, n)); off += n;
		after(pick_log("sb.gap", 0, 1200) * MS, [this]() { more(); });
	}
	void on_eof() override { s->close(); over = true; }
	void on_reset() override { over = true; }
};
void i32(std::string &s, int32_t v) { s.append((const char *)&v, 4); }
std::string frame(int type, int id, const std::string &mod, const std::string &action, const std::string &err, const std::string &data, int fds) {
	std::string s; i32(s, (int32_t)0x8a930a9f); i32(s, type); i32(s, id); i32(s, mod.size()); i32(s, action.size()); i32(s, err.size()); i32(s, data.size()); i32(s, fds);
	return s + mod + action + err + data + std::string(fds, 'x');
}
std::string main_addr = "127.0.0.1:8080", second_addr;
std::vector<Client *> cl;
struct Must { Client *c; size_t idx; };
std::vector<Must> must, cand;
std::string cmd;                 // last command sent ("" before the first)
vtime t_cmd = -1, t_rep = -1, t_sig = -1; vtime stalled_cmd = 0;
std::string rep;                 // last state reported
std::vector<std::pair<vtime, std::string>> cmds;
bool started = false, finishing = false; int ncmd_left; int transitions = 0;
vtime t_listen_done = -1;
void clients_go();
void next_cmd();
void final_run();
bool in_server(Client *c) {
	if (c->over || !c->connected || c->next <= c->got || c->next - c->got != 1 || !c->reqs[c->got].t_full) return false;
	Stream *ss = c->s->c->sock[1]; if (!ss || ss->shut_wr) return false;   // (already closing: not a request any more)
	size_t tot = 0; for (size_t i = 0; i < c->next; ++i) tot += c->reqs[i].bytes.size();
	return ss->rx >= tot;
}
bool legal(const std::string &a, const std::string &b) {
	static const std::map<std::string, std::set<std::string>> g = {
		{"", {"loading"}}, {"loading", {"suspended", "stopping"}}, {"suspended", {"warmup", "stopping"}}, {"warmup", {"running"}},
		{"running", {"suspending"}}, {"suspending", {"suspended", "running"}}, {"stopping", {"down"}}};
	auto i = g.find(a); return i != g.end() && i->second.count(b);
}
struct Angel : Peer {
	std::string in; std::map<int, std::string> sent; int next_id = 0; int listens = 0;
	void on_eof() override { tr("worker closed the control connection"); }
	void on_reset() override {}
	void result(int id, const std::string &err, int fd) {
		if (!s || s->closed) return;
		tr("angel: result %d err '%s' fd %d", id, err.c_str(), fd);
		if (fd >= 0) { Stream *w = s->c->sock[1]; if (!w) { fd_close(fd); return; } w->fdq.push_back({0, {fd}}); }
		s->send(frame(3, id, "", "", err, "", fd >= 0));
	}
	void command(const std::string &c) {
		tr("angel: command %s (reported %s)", c.c_str(), rep.c_str());
		cmd = c; t_cmd = now(); stalled_cmd = stalled_total; cmds.push_back({now(), c});
		s->send(frame(1, -1, "core", c, "", "", 0));
	}
	void on_data(const char *p, size_t n) override {
		in.append(p, n);
		for (;;) {
			if (in.size() < 32) return;
			int32_t h[8]; memcpy(h, in.data(), 32);
			if (h[0] != (int32_t)0x8a930a9f) violation("P28", "bad-magic", "frame with magic %x", h[0]);
			size_t tot = 32; for (int k = 3; k < 7; ++k) { if (h[k] < 0) violation("P28", "bad-frame", "negative length"); tot += h[k]; }
			if (h[7]) violation("P28", "bad-frame", "frame with %d descriptors", h[7]);
			if (in.size() < tot) return;
			std::string mod = in.substr(32, h[3]), act = in.substr(32 + h[3], h[4]), er = in.substr(32 + h[3] + h[4], h[5]), data = in.substr(32 + h[3] + h[4] + h[5], h[6]);
			in.erase(0, tot);
			if (h[1] == 2 && mod == "core" && act == "listen") {
				int id = h[2]; bool main = data == main_addr; ++listens;
				tr("worker calls listen(%s) id %d", data.c_str(), id);
				if (!main && data != second_addr) violation("P28", "bad-call", "worker asks for '%s'", data.c_str());
				int fate = main ? 0 : weighted("ang.fate", {4, 1, 1, 1});
				vtime d = chance("ang.slow", 0.3) ? (vtime)pick_log("ang.delay", 1, 8000) * MS : 0;
				if (fate == 2) d = 20 * SEC - 5 * MS + (vtime)pick("ang.late", 0, 10) * MS;   // around the timeout of the call
				if (fate == 3) { stat_add("listen_unanswered", 1); continue; }
				after(d, [this, id, fate, data, main]() {
					if (fate == 1) { result(id, "no", -1); stat_add("listen_refused", 1); return; }
					if (fate == 2) stat_add("listen_answered_late", 1);
					result(id, "", net_listen_fd(data));
					if (main) t_listen_done = now();
				});
			} else if (h[1] == 1 && mod == "core" && act == "reached-state" && h[2] == -1) {
				tr("worker reached %s (was %s)", data.c_str(), rep.c_str());
				if (!legal(rep, data)) violation("P28", "bad-transition", "worker reports state '%s' after '%s'", data.c_str(), rep.c_str());
				rep = data; t_rep = now(); ++transitions;
				if (data == "suspended" && !started) { started = true; note_baseline(); after(pick_log("ang.first", 0, 500) * MS, next_cmd); clients_go(); }
			} else if (h[1] == 3) {
				auto i = sent.find(h[2]);
				if (i == sent.end()) violation("P28", "bad-result", "worker answers call %d which is not pending", h[2]);
				if (er.empty()) violation("P28", "bad-result", "unknown call '%s' succeeded", i->second.c_str());
				sent.erase(i);
			} else violation("P28", "bad-frame", "unexpected frame type %d %s:%s id %d", h[1], mod.c_str(), act.c_str(), h[2]);
		}
	}
} ang;
void mark_must() { for (auto &m : cand) if (!m.c->over && m.c->got == m.idx) must.push_back(m); cand.clear(); }
void sigterm() { if (!raise_signal(SIGTERM)) { if (rep.size()) harness_error("no SIGTERM handler"); t_sig = now() + 10 * MS; after(10 * MS, sigterm); } }
void suspend_soon(const char *c) {      // requests that the server has read completely by now have to be finished whatever comes
	cand.clear(); for (Client *k : cl) if (in_server(k)) cand.push_back({k, k->got});
	std::string s = c;
	after(5 * MS, [s]() { mark_must(); if (s == "term") sigterm(); else ang.command(s); });
}
const char *target() { return cmd == "run" ? "running" : cmd == "warmup" ? "warmup" : "suspended"; }
vtime slack() { return stalled_total - stalled_cmd; }
void monitor() {
	if (t_sig >= 0) return;
	static int seen = -1; static vtime since = -1;
	if (started && cmd.size() && rep != target() && now() - t_cmd > 10 * SEC + slack()) violation("P28", "not-reached", "%.0f s after the command '%s' the worker is in state '%s'", (now() - t_cmd) / 1e9, cmd.c_str(), rep.c_str());
	if ((cmd == "suspend" || cmd.empty()) && rep == "suspended" && now() - std::max(t_cmd, t_rep) > 2 * SEC + slack()) {
		if (since == t_cmd && seen >= 0 && accept_count > seen) violation("P28", "accepts-while-suspended", "connection accepted %.1f s after the worker reported 'suspended'", (now() - t_rep) / 1e9);
		since = t_cmd; seen = accept_count;
	} else seen = -1;
	after(200 * MS, monitor);
}
void watch_exit(vtime last, uint64_t bytes) {
	if (net_bytes != bytes) { bytes = net_bytes; last = now(); }
	vtime idle = now() - std::max(last, t_sig);
	if (idle > 25 * SEC + stalled_total) violation("P28,P11,P10", "shutdown-hang", "process still running %.0f s after SIGTERM and the last network traffic (state %s); open: %s", idle / 1e9, rep.c_str(), fd_describe().c_str());
	after(500 * MS, [last, bytes]() { watch_exit(last, bytes); });
}
void term() {
	if (t_sig >= 0) return;
	t_sig = now() + 5 * MS; tr("SIGTERM in state %s", rep.c_str()); stat_add(("sigterm_" + (rep == "" ? std::string("start") : rep)).c_str(), 1);
	suspend_soon("term"); after(6 * MS, []() { watch_exit(now(), net_bytes); });
}
int uncalls = 0;
void next_cmd() {
	if (finishing || t_sig >= 0) return;
	if (ncmd_left-- <= 0) { final_run(); return; }
	static bool burst = false;
	if (burst && chance("ang.now", 0.5)) {      // several commands in one read
		static const char *c[] = {"run", "suspend", "warmup"}; int k = 1 + decide("ang.nburst", 3);
		for (int i = 0; i < k; ++i) ang.command(c[weighted("ang.nowcmd", {4, 4, 1})]);
		stat_add("cmd_burst", 1);
	} else switch (weighted("ang.cmd", {5, 4, 1, 1})) {
	case 0: stat_add("cmd_run", 1); ang.command("run"); break;
	case 1: stat_add("cmd_suspend", 1); suspend_soon("suspend"); break;
	case 2: stat_add("cmd_warmup", 1); suspend_soon("warmup"); break;
	default: { int id = ang.next_id++; ang.sent[id] = chance("ang.nomod", 0.5) ? "x:y" : "core:nothing"; ang.s->send(ang.sent[id][0] == 'x' ? frame(2, id, "x", "y", "", std::string(pick_log("ang.big", 0, 60000), 'd'), 0) : frame(2, id, "core", "nothing", "", "", 0)); break; }
	}
	burst = chance("ang.burst", 0.35);
	vtime gap = burst ? (vtime)pick_log("ang.gapus", 1, 20000) * US : (vtime)pick_log("ang.gap", 1, 15000) * MS;
	after(gap + 6 * MS, next_cmd);
}
std::map<std::string, std::string> files;
bool sick(Client *k) { return k->reqs.empty() || k->reqs.back().name == "partial"; }
void final_drain() {
	// everything answered; idle keep-alive connections are left: suspending has to close them
	suspend_soon("suspend");
	auto chk = std::make_shared<std::function<void()>>(); vtime t0 = now();
	*chk = [chk, t0]() {
		if (rep == "suspended" && live_sut_conns == 0) {
			stat_add("drained", 1);
			if (!ang.sent.empty()) violation("P28", "call-unanswered", "a call of the angel to the worker was never answered");
			term(); return;
		}
		if (now() - t0 > 15 * SEC + stalled_total) violation("P28", "not-drained", "%d connection(s) still open %.0f s after suspend although no request is running (state %s): %s", live_sut_conns, (now() - t0) / 1e9, rep.c_str(), fd_describe().c_str());
		after(200 * MS, *chk);
	};
	after(200 * MS, *chk);
}
void final_run() {
	if (finishing) return;
	finishing = true;
	if (chance("end.term", 0.4)) { after(pick_log("end.termms", 0, 3000) * MS, term); return; }
	clear_faults();
	ang.command("run");
	vtime t0 = now();
	auto chk = std::make_shared<std::function<void()>>();
	*chk = [chk, t0]() {
		if (rep == "running" && t_listen_done >= 0) {
			bool all = true; for (Client *k : cl) if (!k->over && !k->all_answered()) all = false;
			if (all) {
				static Client *p; 
				if (!p) { p = new_client(); Req q; q.bytes = req("GET", "/f0", "Host: h\r\n"); q.name = "probe"; q.check = [](Response &r) { if (r.status != 200) violation("P28", "unresponsive", "probe answered %d", r.status); }; p->reqs.push_back(q); p->on_all = [](Client *) {}; p->start(main_addr); cl.push_back(p); }
				else if (p->all_answered()) { stat_add("served_again", 1); final_drain(); return; }
				else if (p->over) violation("P28", "unresponsive", "probe connection ended without an answer in state running");
			}
		}
		if (now() - t0 > 200 * SEC + stalled_total) {
			std::string s; for (Client *c : cl) if (!c->over && !c->all_answered()) s += " " + c->desc();
			violation("P28,P10", "not-serving", "%.0f s after the last 'run' (state %s) requests are unanswered:%s", (now() - t0) / 1e9, rep.c_str(), s.c_str());
		}
		after(300 * MS, *chk);
	};
	after(50 * MS, *chk);
}
void clients_go() {
	int nc = 1 + decide("cl.n", 8);
	for (int i = 0; i < nc; ++i) {
		Client *k = new_client(); cl.push_back(k); k->malformed_prop = "P28,P02";
		k->link = rand_link(); k->link.bw = 0; k->link.lat = std::min<vtime>(k->link.lat, 10 * MS); k->link.jitter = std::min<vtime>(k->link.jitter, 10 * MS); k->link.rcvcap = std::max<size_t>(k->link.rcvcap, 4096);
		if (chance("cl.slow", 0.3)) { k->pause_every = pick_log("cl.pe", 2000, 100000); k->pause_for = pick_log("cl.pf", 1, 1000) * MS; k->pause_budget = 2 * SEC; }
		int nr = 1 + decide("cl.nr", 5);
		for (int j = 0; j < nr; ++j) {
			Req q; std::string want;
			if (weighted("cl.kind", {2, 3}) == 0) { auto it = files.begin(); std::advance(it, decide("cl.file", files.size())); want = it->second; q.name = it->first; q.bytes = req("GET", it->first, "Host: h\r\n"); }
			else { size_t sz = pick_log("cl.bsz", 1, 150000); int key = 500 + k->id * 10 + j; want = content(key, sz); q.name = strf("/b/%d/%zu", key, sz); q.bytes = req("GET", q.name, "Host: h\r\n"); }
			q.think = chance("cl.think", 0.4) ? pick_log("cl.thinkms", 1, 4000) * MS : 0;
			if (chance("cl.trickle", 0.15)) { q.trickle = 1 + q.bytes.size() / 8; q.gap = pick_log("cl.gap", 1, 300) * MS; }
			int id = k->id; std::string nm = q.name;
			q.check = [want, id, nm](Response &r) {
				if (r.status == 503 && stalled_total > 2 * SEC) return;   // connect timeout of the backend
				if (r.status != 200) violation("P28,P05", "status", "client %d %s: status %d", id, nm.c_str(), r.status);
				if (r.body != want) violation("P28,P05", "content", "client %d %s: wrong body (%zu bytes, expected %zu)", id, nm.c_str(), r.body.size(), want.size());
			};
			k->reqs.push_back(q);
		}
		if (chance("cl.idle", 0.4)) k->on_all = [](Client *) {};
		k->on_end = [](Client *c) {
			if (c->all_answered() || t_sig >= 0) return;
			// cut off: only because the worker was suspended (or warmed up again) during the life of this connection
			if (c->end == Client::REFUSED) violation("P28", "refused", "client %d refused although the listening socket is open", c->id);
			bool susp = cmds.empty() || cmds[0].first > c->t_conn; for (size_t i = 0; i < cmds.size(); ++i) if (cmds[i].second != "run" && (i + 1 == cmds.size() || cmds[i + 1].first + SEC + stalled_total > c->t_conn)) susp = true;
			if (!susp && stalled_total < 5 * SEC) violation("P28,P02", "cut", "%s: connection closed with unanswered requests although the worker was running all the time", c->desc().c_str());
		};
		after(pick_log("cl.start", 0, 15000) * MS, [k]() { if (t_sig < 0) k->start(main_addr); else k->over = true; });
	}
}
BackendListener bl;
void setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	c.modules = {"mod_proxy", "mod_accesslog"}; vfs_mkdirs("/var/log/lighttpd2"); vfs_mkdirs("/var/tmp");
	for (int i = 0; i < 3; ++i) { std::string p = strf("/f%d", i); files[p] = content(30 + i, pick_log("cfg.size", 10, 300000)); vfs_put("/vfs/www" + p, files[p]); }
	c.actions = strf("keepalive.timeout %d;\n", decide("cfg.k", 2) ? 30 : 60) + "docroot \"/vfs/www\";\nif req.path =^ \"/b/\" { proxy \"127.0.0.1:9001\"; }\n";
	if (chance("cfg.log", 0.5)) c.setup += "accesslog \"/var/log/lighttpd2/a.log\";\n";
	if (chance("cfg.second", 0.6)) { second_addr = "127.0.0.1:8081"; c.setup += "listen \"127.0.0.1:8081\";\n"; }
	c.extra_args = {"--angel"};
	bl.policy = []() { return CP_OK; }; bl.accept = []() -> Peer * { return new SlowBackend; };
	net_backend("127.0.0.1:9001", &bl);
	write_config(c);
	LinkOpts lo; lo.lat = (vtime)pick_log("ctl.lat", 5, 3000) * US; lo.split = weighted("ctl.split", {3, 1, 1}) * 0.4;
	static const size_t caps[] = {65536, 4096, 300, 40}; lo.sndcap = lo.rcvcap = caps[weighted("ctl.cap", {4, 1, 1, 1})];
	fd_close(net_listen_fd(main_addr));      // the angel has had this socket open all the time
	net_pair_fd0(&ang, lo);
	ncmd_left = pick("cfg.ncmd", 0, 10);
	after(1 * MS, monitor);
	if (chance("cfg.early", 0.1)) after(pick_log("early.ms", 1, 20000) * MS, []() { if (!finishing) term(); });
	on_main_return = []() {
		if (t_sig < 0) violation("P28,P10", "exit", "process exited without a signal");
		for (int fd = 0; fd < 1100; ++fd) if (is_simfd(fd) && fd_get(fd)) fd_close(fd);
		auto all = []() { Listen *l = find_listener(main_addr); for (Client *c : cl) if (!c->over && c->s && c->connected && std::find(l->q.begin(), l->q.end(), c->s->c) == l->q.end()) return false; return true; };
		block_until("drain", all, now() + 60 * SEC);
		if (stalled_total < SEC) for (auto &m : must) if (m.c->got <= m.idx) violation("P28,P11", "dropped", "%s: request %s was being processed when the worker was told to suspend or stop but did not get its complete response (end state %d)", m.c->desc().c_str(), m.c->reqs[m.idx].name.c_str(), (int)m.c->end);
		size_t g = 0; for (Client *c : cl) g += c->got;
		stat_add("responses", g); stat_add("must", must.size()); stat_add("transitions", transitions);
		nontrivial(g * 17 + must.size() * 3 + transitions * 101);
	};
}
ScenarioReg r("supervised", setup);
}
