// Access log: exactly one complete, correct line per request; workers, log thread, short/slow writes, rotation, shutdown.
#include "harness.h"
#include <algorithm>
using namespace sim;
namespace {
struct Exp { std::string method, path, query; bool sent = false, answered = false; int status = 0; size_t body = 0; int lines = 0; Client *c = nullptr; size_t idx = 0; bool close = false; std::string hval; size_t pos = 0; long full = -1; std::string raw; vtime t_sent = 0, t_done = -1; };
std::map<std::string, Exp> ex;
std::map<std::string, std::string> files;
bool two; bool killed_early; vtime t_sig = -1; int rotations;
std::vector<std::string> logs; std::vector<Client *> cl;
std::string esc(const std::string &s) {
	std::string o; static const char *hx = "0123456789ABCDEF";
	for (unsigned char c : s) switch (c) {
		case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; case '\v': o += "\\v"; break;
		default: if (c >= 32 && c < 127) o += c; else { o += "\\x"; o += hx[c >> 4]; o += hx[c & 15]; }
	}
	return o;
}
std::vector<std::string> split(const std::string &s, char d) { std::vector<std::string> v(1); for (char c : s) if (c == d) v.emplace_back(); else v.back() += c; return v; }
void judge_file(const std::string &path, bool second) {
	std::string d = vfs_get(path); size_t ln = 0;
	if (d.size() && d.back() != '\n') violation("P15", "torn", "%s: the last line is not complete: '%s'", path.c_str(), esc(d.substr(d.rfind('\n') == std::string::npos ? 0 : d.rfind('\n') + 1)).substr(0, 200).c_str());
	for (auto &l : split(d, '\n')) {
		++ln; if (l.empty()) continue;
		auto f = split(l, '|');
		if (f.size() != 14 || f[0] != "A" || f[13] != "Z") violation("P15", "malformed", "%s line %zu is not one well-formed entry: '%s'", path.c_str(), ln, esc(l).substr(0, 300).c_str());
		auto it = ex.find(f[1]);
		if (f[1] == "-" && f[3] == "/probe") continue;
		if (it == ex.end()) violation("P15", "unknown", "%s line %zu: unknown request id: '%s'", path.c_str(), ln, esc(l).substr(0, 300).c_str());
		Exp &e = it->second; e.lines++; e.pos = 0;
		if (!e.sent) violation("P15", "unknown", "request %s was logged but never sent", f[1].c_str());
		if (e.lines > 1) violation("P15", "duplicate", "request %s has more than one line in the access log", f[1].c_str());
		if (f[2] != e.method || (f[3] != esc(e.path) && f[3] != e.path) || f[4] != (e.query.empty() ? "-" : esc(e.query)) || f[8] != (e.hval.empty() ? "-" : esc(e.hval)))
			violation("P15", "wrong-request", "request %s (%s %s ?%s): logged as '%s'", f[1].c_str(), e.method.c_str(), esc(e.path).c_str(), esc(e.query).c_str(), esc(l).substr(0, 300).c_str());
		if (f[9] != e.method + " " + esc(e.raw) + " HTTP/1.1") violation("P15", "wrong-request", "request %s: first line logged as '%s'", f[1].c_str(), f[9].c_str());
		if (f[12] != e.c->from.substr(0, e.c->from.rfind(':'))) violation("P15", "wrong-address", "request %s of %s: logged for '%s'", f[1].c_str(), e.c->from.c_str(), f[12].c_str());
		struct tm tm; memset(&tm, 0, sizeof tm); const char *te = strptime(f[10].c_str(), "[%d/%b/%Y:%H:%M:%S +0000]", &tm);
		double tl = te && !*te ? (double)timegm(&tm) - realtime_off / 1e9 : -1e18, lo = (e.t_sent - stalled_total) / 1e9 - 1.1, hi = ((e.t_done >= 0 ? e.t_done : now()) + stalled_total) / 1e9 + 0.1;
		if (tl < lo || tl > hi) violation("P15", "wrong-time", "request %s: sent at %.3f, done at %.3f, logged time '%s' = %.0f", f[1].c_str(), e.t_sent / 1e9, e.t_done / 1e9, f[10].c_str(), tl);
		double du = atof(f[11].c_str()) / 1e6;
		if (f[11].empty() || f[11].find_first_not_of("0123456789") != std::string::npos || du > hi - (e.idx ? lo : e.c->t_conn / 1e9 - 1))   // the first request counts from the accept violation("P15", "wrong-duration", "request %s: sent at %.3f, done at %.3f, logged duration '%s' us", f[1].c_str(), e.t_sent / 1e9, e.t_done / 1e9, f[11].c_str());
		if (e.answered) {
			if (atoi(f[5].c_str()) != e.status) violation("P15", "wrong-status", "request %s: answered with %d, logged as %s", f[1].c_str(), e.status, f[5].c_str());
			if (f[6] != (e.body ? strf("%zu", e.body) : std::string("0"))) violation("P15", "wrong-bytes", "request %s: body of %zu bytes, logged as '%s'", f[1].c_str(), e.body, f[6].c_str());
			if (f[7] == "X" && !e.c->aborted) violation("P15", "wrong-flag", "request %s was answered completely but is logged as aborted", f[1].c_str());
			if (e.close && f[7] == "+") violation("P15", "wrong-flag", "request %s: the connection was closed but keep-alive is logged", f[1].c_str());
		} else {
			long lb = atol(f[6].c_str());
			if (e.full >= 0 && lb > e.full) violation("P15", "wrong-bytes", "request %s: incomplete response of a file of %ld bytes logged with %ld bytes", f[1].c_str(), e.full, lb);
			if (e.full >= 0 && atoi(f[5].c_str()) == 200 && lb < e.full && f[7] != "X") violation("P15", "wrong-flag", "request %s: %ld of %ld bytes sent but not logged as aborted", f[1].c_str(), lb, e.full);
			probe("aborted_logged");
		}
		if (second != (it->second.path.compare(0, 3, "/s/") == 0)) violation("P15", "wrong-file", "request %s was logged to the wrong file", f[1].c_str());
		static size_t n; e.pos = ++n;
	}
}
// log lines are written while the server runs (within seconds), not only when it ends
std::string written() {
	static vtime t0 = -1; if (t0 < 0) t0 = now();
	std::string d; for (auto &p : logs) d += vfs_get(p);
	for (auto &kv : ex) if (kv.second.answered && d.find("A|" + kv.first + "|") == std::string::npos) {
		if (now() - t0 > 20 * SEC + stalled_total + slow_total) violation("P15", "not-written", "request %s was answered %.0f s ago but is still not in the access log", kv.first.c_str(), (now() - kv.second.t_done) / 1e9);
		return "log lines not written";
	}
	return "";
}
void judge() {
	for (auto &p : logs) judge_file(p, p.find("second") != std::string::npos);
	size_t n = 0, miss = 0;
	for (auto &kv : ex) {
		if (kv.second.lines) ++n;
		if (kv.second.answered && !kv.second.lines) violation("P15", "lost", "request %s (%s) was answered with %d but is not in the access log", kv.first.c_str(), kv.second.path.c_str(), kv.second.status);
		Client *c = kv.second.c;
		if (kv.second.sent && !kv.second.lines && c->got == kv.second.idx && c->rp.in_resp) violation("P15", "lost", "request %s (%s): a part of the response was received but it is not in the access log", kv.first.c_str(), kv.second.path.c_str());
		if (kv.second.sent && !kv.second.lines) ++miss;
	}
	// lines of one connection (one file, no rotation) are in request order
	if (!rotations) for (auto &a : ex) for (auto &b : ex) if (a.second.c == b.second.c && a.second.idx + 1 == b.second.idx && a.second.lines && b.second.lines && (a.second.path.compare(0, 3, "/s/") == 0) == (b.second.path.compare(0, 3, "/s/") == 0) && a.second.pos > b.second.pos)
		violation("P15", "order", "requests %s and %s of one connection are logged in the wrong order", a.first.c_str(), b.first.c_str());
	stat_add("log_lines", n); stat_add("unlogged_aborted", miss); { size_t lb = 0; for (auto &kv : ex) lb = lb * 31 + kv.second.status * 7 + kv.second.body; nontrivial(n * 1000 + rotations * 100 + miss + lb * 100000); }
}
}
static void accesslog_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	if (!cfg.faults_off) {
		static const double r[] = {0, 0.02, 0.2, 0.6};
		set_fault("disk_short_write", r[decide("knob.lshort", 4)]); set_fault("disk_eintr", r[decide("knob.leintr", 3)]);
		set_fault("disk_slow", r[weighted("knob.lslow", {3, 2, 1})]);
	}
	c.modules = {"mod_accesslog"}; vfs_mkdirs("/vfs/log"); vfs_mkdirs("/var/tmp");
	two = chance("al.two", 0.4);
	std::string fmt = "accesslog.format \"A|%{X-Id}i|%m|%U|%q|%s|%b|%X|%{X-H}i|%r|%t|%D|%h|Z\";\n";
	c.actions = fmt + "accesslog \"/vfs/log/access.log\";\n" + (two ? "if req.path =^ \"/s/\" { accesslog \"/vfs/log/second.log\"; }\n" : "") + "keepalive.timeout 120;\ndocroot \"/vfs/www\";\nif req.path =^ \"/e/\" { respond 200 => \"echo %{req.path}\"; } else if req.path =^ \"/d\" { respond 403; }\n";
	logs = {"/vfs/log/access.log"}; if (two) logs.push_back("/vfs/log/second.log");
	for (int i = 0; i < 4; ++i) { std::string p = strf("%s/f%d", i == 3 && two ? "/s" : "", i); files[p] = content(30 + i, pick_log("al.size", 0, 200000)); vfs_put("/vfs/www" + p, files[p]); }
	vfs_put("/vfs/www/probe", "probe-ok\n");
	write_config(c);
	when_listening([]() {
		int mode = weighted("al.mode", {3, 2, 2});    // 0 normal end, 1 SIGTERM directly after the last response, 2 SIGTERM at any time
		int nc = 1 + decide("al.n", 6); static int left; left = nc;
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); cl.push_back(k); k->malformed_prop = "P15,P02"; k->link = rand_link(); k->depth = 1 + weighted("al.depth", {3, 1, 1});
			int nr = 1 + decide("al.nr", 8); bool http10 = false;
			for (int j = 0; j < nr && !http10; ++j) {
				Req q; std::string id = strf("%d.%d", k->id, j); Exp &e = ex[id]; e.c = k; e.idx = j;
				int kind = weighted("al.kind", {5, 3, 1, 1, 1}); std::string raw;
				if (kind == 0) { auto it = files.begin(); std::advance(it, decide("al.f", files.size())); e.path = raw = it->first; e.full = it->second.size(); }
				else if (kind == 1) {
					e.path = raw = "/e/"; int m = decide("al.len", 40);
					for (int z = 0; z < m; ++z) { static const unsigned char odd[] = {'"', '\\', ' ', '\n', '\r', '\t', 0x01, 0x7f, 0x80, 0xc3, 0xff, '%', 'a', 'z'}; unsigned char ch = odd[decide("al.ch", sizeof odd)]; e.path += ch < 32 || ch == 127 ? '_' : ch; raw += strf("%%%02x", ch); } e.path += 'z'; raw += 'z';
				} else if (kind == 2) e.path = raw = "/missing";
				else if (kind == 3) e.path = raw = "/d";
				else { e.path = raw = files.begin()->first; }
				e.method = kind == 4 ? "HEAD" : "GET"; q.head = kind == 4;
				if (chance("al.q", 0.3)) { e.query = strf("k=%d&x=%%20\"", j); raw += "?" + e.query; }
				if (chance("al.h", 0.3)) { e.hval = std::string("v\x80\xfe\t\xc3\\", decide("al.hl", 7)); while (e.hval.size() && (e.hval.back() == '\t' || e.hval.back() == ' ')) e.hval.pop_back(); }
				if (j == nr - 1 && chance("al.close", 0.3)) { e.close = true; q.expect_close = true; }
				e.raw = raw; q.name = id; q.bytes = req(e.method, raw, "Host: h\r\nX-Id: " + id + "\r\n" + (e.hval.empty() ? "" : "X-H: " + e.hval + "\r\n") + (e.close ? "Connection: close\r\n" : ""));
				q.think = chance("al.think", 0.3) ? pick_log("al.thinkms", 1, chance("al.long", 0.2) ? 40000 : 2000) * MS : 0;
				q.check = [id, kind](Response &r) {
					Exp &e = ex[id]; e.answered = true; e.t_done = now(); e.status = r.status; e.body = r.body.size();
					int want = kind == 2 ? 404 : kind == 3 ? 403 : 200;
					if (r.status != want) violation("P15,P01,P02", "status", "%s: status %d instead of %d", id.c_str(), r.status, want);
					if (want == 200 && kind != 4 && r.body != (kind == 1 ? "echo " + e.path : files[e.path])) violation("P15,P01,P02", "content", "%s: wrong body", id.c_str());
				};
				k->reqs.push_back(q);
			}
			k->on_sent = [](Client *, Req &q) { ex[q.name].sent = true; ex[q.name].t_sent = now(); };
			if (chance("al.abort", 0.2)) { k->abort_at = pick_log("al.abortms", 1, 3000) * MS; k->abort_rst = decide("al.rst", 2); }
			k->on_end = [mode](Client *k) {
				stat_add("responses", k->got);
				if (mode != 2 && k->end != Client::DONE && k->end != Client::ABORTED) violation("P15,P02", "conn-broken", "%s: connection ended with state %d", k->desc().c_str(), (int)k->end);
				if (--left == 0 && mode == 1) { t_sig = now(); after(decide("al.sigdelay", 3) ? 0 : pick_log("al.sigus", 1, 100000) * US, []() { send_sigterm(); }); }
			};
			if (mode == 0) track(k);
			after(pick_log("al.start", 0, 2000) * MS, [k]() { k->start(listen_addr); });
		}
		if (chance("al.rotate", 0.4)) {
			int n = 1 + decide("al.nrot", 3);
			for (int i = 0; i < n; ++i) after(pick_log("al.rotms", 1, 60000) * MS, [i]() {
				std::string from = logs[0], to = strf("/vfs/log/old.%d", i); if (!vfs_lookup(from)) return;
				vfs_rename(from, to); logs.push_back(to); ++rotations; probe("rotated");
			});
		}
		if (mode == 0) { EndOpts o; o.idle_cond = []() -> std::string { return written(); }; o.live_prop = "P15,P10,P02"; o.fd_slack = 2; o.final_check = judge; run_to_end(o); }
		else {
			if (mode == 2) after(pick_log("al.sig", 1, 5000) * MS, []() { t_sig = now(); send_sigterm(); });
			on_main_return = []() {
				if (t_sig < 0) violation("P15,P10", "exit", "process exited without a signal");
				for (int fd = 0; fd < 1100; ++fd) if (is_simfd(fd) && fd_get(fd)) fd_close(fd);
				auto all = []() { for (Client *c : cl) if (!c->over && c->s && c->connected) return false; return true; };
				block_until("drain", all, now() + 100 * SEC);
				judge();
			};
			after(4000 * SEC, []() { violation("P15,P10,P11", "shutdown-hang", "process does not exit"); });
		}
	});
}
static ScenarioReg r1("accesslog", accesslog_setup);
