// The angel (supervisor) process with simulated instances: crashes at any point, graceful restart, shutdown, listen sockets.
#include "world.h"
#include "client.h"
#include <signal.h>
#include <algorithm>
using namespace sim;

namespace {
struct Call { std::string action, data; vtime sent; bool faulty; };
struct Inst : Peer {
	int idx = 0, pid = 0; bool alive = false, reaped = false, termed = false, conn_closed = false, broken = false;
	vtime born = 0, died = 0, t_term = -1, t_announce = -1, t_dead_signal = -1;
	int st_exit = 0;
	std::string in; std::deque<File *> fdq; std::vector<File *> held;
	std::map<int, Call> calls; std::set<int> done_ids; int next_id = 0; int pending = 0;
	std::shared_ptr<PipeBuf> err;
	std::set<std::string> got_listen;
	enum St { LOADING, SUSPENDED, WARMUP, RUNNING, SUSPENDING, STOPPING } state = LOADING, dest = SUSPENDED;
	bool moving = false, told_run = false, told_warmup = false, any_cmd = false, announced_susp_after_term = false;
	bool healthy = true; int die_after_events = -1; int slow = 0;
	void start();
	void step();                    // move one state towards dest
	void announce(const char *st);
	void rpc(const std::string &mod, const std::string &action, const std::string &data);
	void die(int status, const char *why);
	void event(const char *what);   // a point at which the instance may die
	void on_data(const char *p, size_t n) override;
	void on_eof() override { tr("inst %d: angel closed the connection", pid); conn_closed = true; if (alive) die(SIGABRT, "angel connection closed"); }
	void on_reset() override { on_eof(); }
	void on_scm(File *f) { f->refs++; fdq.push_back(f); }
	void log_junk();
};
std::vector<Inst *> insts; Inst *pending_pair;
int next_pid = 1000;
std::vector<std::string> addrs, bad_addrs;
std::map<std::string, Listen *> owned;
std::map<std::string, File *> first_listen;
bool calm = false, stopping = false, chaos_calls, last_spawn_failed = false;
vtime t_stop = -1, t_calm = -1; int hups = 0, forks = 0; int deaths = 0, spawn_fails = 0; vtime last_fault = 0;
vtime slack() { return stalled_total; }
int live_count() { int n = 0; for (Inst *i : insts) n += i->alive; return n; }
Inst *by_pid(int pid) { for (Inst *i : insts) if (i->pid == pid) return i; return nullptr; }
std::string list() { std::string s; for (Inst *i : insts) s += strf(" [%d %s%s state %d%s%s born %.3f died %.3f]", i->pid, i->alive ? "alive" : "dead", i->termed ? " termed" : "", (int)i->state, i->told_run ? " told-run" : "", i->told_warmup ? " told-warmup" : "", i->born / 1e9, i->died / 1e9); return s; }
void i32(std::string &s, int32_t v) { s.append((const char *)&v, 4); }
std::string msg(int type, int id, const std::string &mod, const std::string &action, const std::string &data) {
	std::string s; i32(s, (int32_t)0x8a930a9f); i32(s, type); i32(s, id); i32(s, mod.size()); i32(s, action.size()); i32(s, 0); i32(s, data.size()); i32(s, 0);
	return s + mod + action + data;
}
vtime dly(const char *site, int hi_ms) { return (vtime)pick_log(site, 0, hi_ms) * MS + (vtime)pick(site, 0, 999) * US; }

void Inst::log_junk() {
	if (!err || !alive) return;
	size_t n = 1 + pick_log("inst.junk", 0, 9000); std::string s = content(pid, n);
	for (auto &c : s) { c = 32 + (uint8_t)c % 95; if (chance("inst.nl", 0.01)) c = '\n'; }
	if (chance("inst.nul", 0.1)) s[s.size() / 2] = 0;
	if (err->q.size() + s.size() <= err->cap) { err->q.push(s.data(), s.size()); kernel_changed(); }
}
void Inst::die(int status, const char *why) {
	if (!alive) return;
	alive = false; died = now(); st_exit = status; ++deaths; last_fault = now();
	tr("inst %d dies: %s status %d", pid, why, status);
	stat_add(why[0] == 't' ? "instance_exit" : "instance_crash", 1);
	if (err) { err->w--; kernel_changed(); }
	if (state == LOADING || (!told_run && !told_warmup)) owned.clear();   // the angel may give up on this instance: the server counts as down until the next start
	for (File *f : held) file_unref(f); held.clear();
	for (File *f : fdq) file_unref(f); fdq.clear();
	if (s && !s->closed && !conn_closed) { s->close(); }
	after(dly("inst.sigchld", 30), [this]() { t_dead_signal = now(); if (!raise_signal(SIGCHLD)) harness_error("no SIGCHLD handler"); });
}
void Inst::event(const char *what) {
	if (!alive || calm) return;
	if (die_after_events >= 0 && die_after_events-- == 0) {
		switch (weighted("inst.deathkind", {4, 3, 2, 2})) {
		case 0: die(SIGSEGV, what); break;
		case 1: die(1 << 8, what); break;
		case 2: tr("inst %d closes the control connection", pid); conn_closed = true; stat_add("control_closed_early", 1); s->close(); after(dly("inst.zombie", 3000), [this]() { die(SIGABRT, "lost control"); }); break;
		default: {
			tr("inst %d sends garbage", pid); stat_add("control_garbage", 1); broken = true;
			std::string g; int k = decide("inst.garbage", 8);
			if (k == 0) g = content(pid + 7, 64);
			else {
				i32(g, (int32_t)0x8a930a9f); i32(g, k == 1 ? 9 : k == 2 ? 3 : 2); i32(g, k == 3 ? -1 : k == 2 ? 77 : 5);
				for (int j = 0; j < 4; ++j) i32(g, k == 4 ? -5 : k == 5 ? (j == 1 ? -4 : 4) : 0);
				i32(g, k == 6 ? 3 : k == 7 ? 2000000000 : 0); g += std::string(16, 'g');   // descriptors which are never sent
				if (k >= 6) g.resize(32);
			}
			s->send(g); after(dly("inst.garbdie", 2000), [this]() { die(SIGABRT, "garbage"); }); break; }
		}
	}
}
void Inst::announce(const char *st) {
	if (!alive || conn_closed || broken) return;
	tr("inst %d reached %s", pid, st);
	leak_mark();
	t_announce = now();
	s->send(msg(1, -1, "core", "reached-state", st));
}
void Inst::rpc(const std::string &mod, const std::string &action, const std::string &data) {
	if (!alive || conn_closed || broken) return;
	int id = next_id++; ++pending;
	calls[id] = {mod == "core" ? action : "?" + mod, data, now(), false};
	tr("inst %d calls %s:%s(%s) id %d", pid, mod.c_str(), action.c_str(), data.substr(0, 60).c_str(), id);
	s->send(msg(2, id, mod, action, data));
	after(20 * SEC, [this, id]() {
		if (!alive || conn_closed || broken || !calls.count(id)) return;
		if (now() - calls[id].sent < 20 * SEC + slack()) return;
		violation("P22", "call-unanswered", "the angel did not answer call %d (%s '%s') of instance %d within 20 s", id, calls[id].action.c_str(), calls[id].data.substr(0, 100).c_str(), pid);
	});
}
void Inst::start() {
	if (!alive) return;
	healthy = calm || !chance("inst.sick", 0.45);
	if (!healthy) die_after_events = pick("inst.dieat", 0, 14);
	slow = calm ? 0 : weighted("inst.slow", {4, 1, 1});
	tr("inst %d starts healthy %d die_after %d", pid, (int)healthy, die_after_events);
	event("startup"); if (!alive) return;
	std::vector<std::pair<std::string, std::string>> q;
	for (auto &a : addrs) q.push_back({"listen", a});
	if (chaos_calls) {
		int n = pick("inst.extra", 0, 4);
		for (int k = 0; k < n; ++k) switch (weighted("inst.callkind", {3, 3, 2, 1, 1, 1})) {
			case 0: q.push_back({"log-open-file", strf("/var/log/lighttpd2/%d.log", (int)pick("inst.logn", 0, 3))}); break;
			case 1: q.push_back({"listen", bad_addrs[decide("inst.bad", bad_addrs.size())]}); break;
			case 2: { static const char *p[] = {"/etc/passwd", "/var/log/lighttpd2/../../../etc/passwd", "/var/log/lighttpd2/x/../../../secret", "/var/log/lighttpd2x/a", "/var/log/lighttpd2", "", "/var/log/lighttpd2/nodir/a.log"}; q.push_back({"log-open-file", p[decide("inst.badlog", 7)]}); break; }
			case 3: q.push_back({"no-such-action", "x"}); break;
			case 4: q.push_back({"?nomod", std::string(pick_log("inst.bigdata", 0, 65000), 'y')}); break;
			default: q.push_back({"listen", addrs[0]}); break;
		}
	}
	if (chance("inst.junkp", 0.3)) log_junk();
	vtime t = 0;
	for (auto &x : q) {
		auto y = x;
		auto f = [this, y]() { if (!alive) return; if (y.first[0] == '?') rpc(y.first.substr(1), "act", y.second); else rpc("core", y.first, y.second); event("call sent"); };
		t += chance("inst.pipelined", 0.6) ? 0 : dly("inst.callgap", 50);
		after(t, f);
	}
	after(t + 1 * MS, [this]() { step(); });
}
// the worker's own state machine: waits for the calls, then reports states
void Inst::step() {
	if (!alive || broken) return;
	if (state == LOADING && pending > 0 && !termed) { after(2 * MS, [this]() { step(); }); return; }
	if (state == dest || moving) return;
	moving = true;
	after(dly("inst.step", slow == 2 ? 8000 : slow == 1 ? 800 : 20), [this]() {
		moving = false; if (!alive) return;
		if (chance("inst.junk2", 0.03)) log_junk();
		switch (state) {
		case LOADING: state = dest == STOPPING ? STOPPING : SUSPENDED; break;
		case SUSPENDED: if (dest == WARMUP || dest == RUNNING) state = WARMUP; else if (dest == STOPPING) state = STOPPING; break;
		case WARMUP: if (dest != WARMUP) state = RUNNING; break;
		case RUNNING: if (dest != RUNNING) state = SUSPENDING; break;
		case SUSPENDING: state = dest == RUNNING ? RUNNING : SUSPENDED; break;
		case STOPPING: break;
		}
		static const char *nm[] = {"loading", "suspended", "warmup", "running", "suspending", "stopping"};
		if (state == SUSPENDED && termed) announced_susp_after_term = true;
		announce(nm[state]);
		event(nm[state]); if (!alive) return;
		if (state == STOPPING) { after(dly("inst.exit", 100), [this]() { die(0, "term"); }); return; }
		step();
	});
}
void Inst::on_data(const char *p, size_t n) {
	in.append(p, n);
	for (;;) {
		if (in.size() < 32) return;
		int32_t h[8]; memcpy(h, in.data(), 32);
		if (h[0] != (int32_t)0x8a930a9f) violation("P22", "bad-magic", "instance %d received a frame with magic %x", pid, h[0]);
		size_t tot = 32; for (int k = 3; k < 7; ++k) { if (h[k] < 0) violation("P22", "bad-frame", "negative length in a frame sent to instance %d", pid); tot += h[k]; }
		if (h[7] < 0 || h[7] > 1) violation("P22", "bad-frame", "frame with %d descriptors", h[7]);
		if (in.size() < tot + h[7]) return;
		std::string mod = in.substr(32, h[3]), act = in.substr(32 + h[3], h[4]), er = in.substr(32 + h[3] + h[4], h[5]), data = in.substr(32 + h[3] + h[4] + h[5], h[6]);
		in.erase(0, tot + h[7]);
		File *fd = nullptr;
		if (h[7]) { if (fdq.empty()) violation("P22", "no-fd", "instance %d: result announced a descriptor but none was passed", pid); fd = fdq.front(); fdq.pop_front(); held.push_back(fd); }
		if (!alive) continue;
		any_cmd = true;
		if (h[1] == 3) {
			auto c = calls.find(h[2]);
			if (c == calls.end()) violation("P22", "bad-result", "instance %d received a result for id %d, which it %s", pid, h[2], done_ids.count(h[2]) ? "had already been answered" : "never sent");
			Call k = c->second; calls.erase(c); done_ids.insert(h[2]); --pending;
			tr("inst %d result id %d err '%s' fd %d", pid, h[2], er.substr(0, 80).c_str(), (int)(fd != nullptr));
			if (fd && er.size()) violation("P22", "bad-result", "result with both an error and a descriptor");
			if (k.action == "listen") {
				bool allowed = std::find(addrs.begin(), addrs.end(), k.data) != addrs.end();
				if (!allowed && fd) violation("P22", "acl", "instance %d got a listening socket for '%s' which allow_listen does not permit", pid, k.data.c_str());
				if (allowed && !fd && calm && k.sent > t_calm) violation("P22", "listen-refused", "instance %d: listen('%s') failed without a fault: %s", pid, k.data.c_str(), er.c_str());
				if (allowed && fd) {
					if (fd->kind != File::LISTEN) violation("P22", "wrong-fd", "instance %d: the descriptor for '%s' is not a listening socket", pid, k.data.c_str());
					Listen *l = (Listen *)fd;
					std::string want = k.data[0] == '/' ? "unix:" + k.data : k.data;
					if (k.data.compare(0, 5, "unix:") == 0) want = k.data;
					if (l->addr.str != want) violation("P22", "wrong-fd", "instance %d asked for '%s' and got a socket bound to %s", pid, k.data.c_str(), l->addr.str.c_str());
					uint32_t sf = 0; for (auto &f : faults) if (!strcmp(f.name, "socketpair_fail") || !strcmp(f.name, "pipe_fail") || !strcmp(f.name, "fork_fail")) sf += f.fired;
					auto o = sf ? owned.end() : owned.find(k.data);
					if (o != owned.end() && o->second != l) violation("P22", "socket-recreated", "instance %d: the listening socket for '%s' was created again while the server was up (queued connections are lost)", pid, k.data.c_str());
					got_listen.insert(k.data); first_listen[k.data] = l;
				}
			} else if (k.action == "log-open-file") {
				bool allowed = k.data.compare(0, 19, "/var/log/lighttpd2/") == 0 && k.data.find("..") == std::string::npos;
				if (!allowed && fd) violation("P22", "acl", "instance %d got a descriptor for log file '%s'", pid, k.data.c_str());
				bool exists = k.data.find("nodir") == std::string::npos;
				if (allowed && exists && !fd && calm && k.sent > t_calm) violation("P22", "log-refused", "instance %d: log-open-file('%s') failed: %s", pid, k.data.c_str(), er.c_str());
				if (fd) {
					if (fd->kind != File::REG || ((RegFile *)fd)->path != k.data) violation("P22", "wrong-fd", "instance %d asked for log file '%s' and got something else", pid, k.data.c_str());
					if ((fd->flags & O_ACCMODE) == O_RDONLY) violation("P22", "wrong-fd", "log file '%s' not writable", k.data.c_str());
				}
			} else if (er.empty() || fd) violation("P22", "unknown-call", "instance %d: call to unknown '%s' succeeded", pid, k.action.c_str());
			event("result");
		} else if (h[1] == 1) {
			if (mod != "core" || h[2] != -1) violation("P22", "bad-frame", "unexpected message %s:%s id %d", mod.c_str(), act.c_str(), h[2]);
			tr("inst %d told %s", pid, act.c_str());
			if (act == "run") {
				if (!termed && !broken && !conn_closed) for (Inst *o : insts) if (o != this && o->alive && o->pid && !(o->termed && (o->announced_susp_after_term || o->state == STOPPING || o->state == SUSPENDED || o->broken || o->conn_closed)) && o->told_run && !o->broken && !o->conn_closed)
					violation("P22", "two-active", "instance %d told to run while instance %d is still active (%stermed): %s", pid, o->pid, o->termed ? "" : "not ", list().c_str());
				told_run = true; if (!termed) { dest = RUNNING; for (auto o = owned.begin(); o != owned.end();) if (!got_listen.count(o->first)) o = owned.erase(o); else ++o; /* its own listen failed: nobody holds it after the old one */ for (auto &a : got_listen) owned[a] = (Listen *)first_listen[a]; }
			} else if (act == "warmup") { told_warmup = true; if (!termed) dest = WARMUP; }
			else if (act == "suspend") { if (!termed) dest = SUSPENDED; }
			else violation("P22", "bad-frame", "unknown command %s", act.c_str());
			event("command"); if (!alive) return;
			step();
		} else violation("P22", "bad-frame", "unexpected frame type %d", h[1]);
	}
}
// ---- simulated process calls ---------------------------------------------------------------------
int do_fork() {
	Inst *i = pending_pair; pending_pair = nullptr;
	if (!i) harness_error("fork without socketpair");
	if (FAULT("fork_fail")) { tr("fork fails"); last_spawn_failed = true; ++spawn_fails; last_fault = now(); errno = EAGAIN; return -1; }
	last_spawn_failed = false;
	if (stopping && now() - t_stop > 1 * SEC + slack()) violation("P22", "fork-after-stop", "the angel started an instance %.1f s after SIGTERM", (now() - t_stop) / 1e9);
	int others = live_count();
	if (others > 1) violation("P22", "too-many-instances", "the angel starts an instance while %d others are alive: %s", others, list().c_str());
	if (others == 1 && !hups) violation("P22", "too-many-instances", "the angel starts a second instance although no restart was requested: %s", list().c_str());
	i->pid = next_pid++; i->alive = true; i->born = now(); i->err = last_pipe; if (i->err) i->err->w++;
	++forks;
	tr("fork -> pid %d (live %d)", i->pid, others + 1);
	if (forks > 400) violation("P22,P10", "respawn-storm", "%d instances started", forks);
	after(dly("inst.exec", 60), [i]() { i->start(); });
	return i->pid;
}
int do_kill(int pid, int sig) {
	Inst *i = by_pid(pid);
	if (!i || i->reaped) violation("P22", "kill-stranger", "the angel sends signal %d to pid %d, which is not (any more) one of its children", sig, pid);
	if (sig != SIGTERM) violation("P22", "kill-sig", "signal %d sent to instance %d", sig, pid);
	if (!i->alive) return 0;
	if (!i->termed) { i->termed = true; i->t_term = now(); i->dest = Inst::STOPPING; after(dly("inst.term", 50), [i]() { i->event("term"); i->step(); }); if (i->broken) after(50 * MS, [i]() { i->die(SIGABRT, "garbage"); }); }
	else { tr("second SIGTERM"); stat_add("second_sigterm", 1); after(1 * MS, [i]() { i->die(SIGABRT, "second SIGTERM"); }); }
	return 0;
}
int do_waitpid(int pid, int *st, int) {
	bool any = false;
	for (Inst *i : insts) {
		if (!i->pid || i->reaped) continue;
		any = true;
		if (!i->alive && i->t_dead_signal >= 0 && (pid == -1 || pid == i->pid)) { i->reaped = true; if (st) *st = i->st_exit; tr("waitpid -> %d", i->pid); return i->pid; }
	}
	if (!any) { errno = ECHILD; return -1; }
	return 0;
}
// ---- driver ----------------------------------------------------------------------------------------
Inst *runner() { Inst *r = nullptr; for (Inst *i : insts) if (i->pid && !i->alive && !i->reaped) return nullptr; else if (i->alive) { if (r) return nullptr; r = i; } return r && r->state == Inst::RUNNING && r->told_run && !r->termed ? r : nullptr; }
int refs_held(File *f) { int n = 0; for (Inst *i : insts) { for (File *x : i->held) n += x == f; for (File *x : i->fdq) n += x == f; } return n; }
void invariants() {
	static uint32_t seen = 0; uint32_t n = 0; for (auto &f : faults) if (!strcmp(f.name, "socketpair_fail") || !strcmp(f.name, "pipe_fail") || !strcmp(f.name, "fork_fail")) n += f.fired;
	if (n != seen) { seen = n; owned.clear(); }
	if (!stopping) for (auto &o : owned) {
		if (find_listener(o.second->addr.str) != o.second || o.second->refs - refs_held(o.second) < 1) violation("P22", "socket-lost", "the angel closed the listening socket for '%s' while the server was up", o.first.c_str());
	}
	after(20 * MS, invariants);
}
void watch_stop() {
	if (now() - t_stop > 3 * SEC + slack()) for (Inst *i : insts) if (i->alive && !i->termed && now() - i->born > 3 * SEC + slack()) violation("P22", "not-terminated", "instance %d was not told to terminate %.1f s after the angel got SIGTERM: %s", i->pid, (now() - t_stop) / 1e9, list().c_str());
	static vtime t_none = -1;
	if (live_count() == 0) { if (t_none < 0) t_none = now(); } else t_none = -1;
	if (t_none >= 0 && now() - std::max(t_none, t_stop) > 10 * SEC + slack()) violation("P22", "angel-hang", "angel still running %.0f s after SIGTERM and the end of its last instance: %s", (now() - t_none) / 1e9, list().c_str());
	after(200 * MS, watch_stop);
}
void stop_angel(const char *why) {
	if (stopping) return;
	stopping = true; t_stop = now();
	tr("SIGTERM to the angel (%s), %d live", why, live_count());
	stat_add(live_count() == 2 ? "sigterm_during_handover" : live_count() == 1 ? "sigterm_one_instance" : "sigterm_no_instance", 1);
	on_main_return = []() {
		if (live_count()) violation("P22", "left-instances", "the angel exited while an instance was alive: %s", list().c_str());
	};
	if (!raise_signal(chance("stop.int", 0.3) ? SIGINT : SIGTERM)) harness_error("no SIGTERM handler");
	watch_stop();
}
void hup() { if (stopping) return; ++hups; tr("SIGHUP (live %d)", live_count()); stat_add("sighup", 1); if (!raise_signal(SIGHUP)) harness_error("no SIGHUP handler"); }
void fd_check(const char *when, vtime until, std::function<void()> next) {
	int want = 2 + (int)addrs.size();
	if (fd_leakable() <= want) { next(); return; }
	if (now() > until + slack()) violation("P22,P09", "fd-leak", "%s: the angel holds %d descriptors, expected %d (control connection, stderr pipe, %zu listening sockets): %s", when, fd_leakable(), want, addrs.size(), fd_describe().c_str());
	after(200 * MS, [=]() { fd_check(when, until, next); });
}
int final_hups;
void final_handover(int left) {
	Inst *old = runner(); if (!old) violation("P22", "not-running", "no running instance before a graceful restart in the quiet phase: %s", list().c_str());
	if (!left) { fd_check("quiet, one instance", now() + 5 * SEC, []() { nontrivial(hups * 1000 + deaths * 10 + spawn_fails); stop_angel("end"); }); return; }
	hup();
	vtime t0 = now();
	auto chk = std::make_shared<std::function<void()>>();
	*chk = [old, t0, left, chk]() {
		Inst *r = runner();
		if (r && r != old && !old->alive && old->reaped) { stat_add("handover_ok", 1); after(500 * MS + slack(), [left]() { final_handover(left - 1); }); return; }
		if (now() - t0 > 60 * SEC + slack()) violation("P22", "handover-stuck", "graceful restart in the quiet phase not finished after 60 s: %s", list().c_str());
		if (!old->alive && !old->termed) harness_error("old died");
		after(100 * MS, *chk);
	};
	after(100 * MS, *chk);
}
void wait_runner(vtime t0, bool huped) {
	if (runner()) {
		if (now() < t_calm + 6 * SEC) { after(1 * SEC, [t0, huped]() { wait_runner(t0, huped); }); return; }   // let a stalled angel catch up
		fd_check("quiet", now() + 5 * SEC, []() { final_handover(final_hups); });
		return;
	}
	if (!huped && now() - t0 > 40 * SEC) {
		// the angel gives up on an instance that never reported a state, or that could not be started: only then may nothing be running
		if (live_count() == 0) {
			Inst *l = nullptr; for (Inst *i : insts) if (i->pid && (!l || i->died > l->died)) l = i;
			bool gaveup = spawn_fails > 0; for (auto &f : faults) if (f.fired && (!strcmp(f.name, "socketpair_fail") || !strcmp(f.name, "pipe_fail"))) gaveup = true;
			for (Inst *i : insts) if (i->pid && !i->alive && (i->state == Inst::LOADING || !(i->any_cmd && i->told_run + i->told_warmup > 0))) gaveup = true;
			if (!gaveup) violation("P22", "not-restarted", "no instance is running although every one that died had been up: %s", list().c_str());
			stat_add("gave_up", 1);
		}
		hup(); huped = true; t0 = now();
	}
	if (huped && now() - t0 > 60 * SEC + slack()) violation("P22", "not-recovered", "no single running instance 60 s after the faults stopped and SIGHUP was sent: %s", list().c_str());
	after(100 * MS, [t0, huped]() { wait_runner(t0, huped); });
}
void setup() {
	addrs = {"127.0.0.1:8080"}; if (chance("cfg.two", 0.5)) addrs.push_back("127.0.0.1:8443"); if (chance("cfg.unix", 0.3)) addrs.push_back("unix:/vfs/run/web.sock");
	bad_addrs = {"127.0.0.1:22", "0.0.0.0:8080", "127.0.0.2:8080", "unix:/vfs/run/other/x.sock", "not an address", "", "unix:/etc/passwd", "[::1]:8080"};
	vfs_mkdirs("/vfs/run"); vfs_mkdirs("/var/log/lighttpd2"); vfs_mkdirs("/etc"); vfs_put("/etc/passwd", "x");
	std::string allow; for (auto &a : addrs) allow += (allow.size() ? ", \"" : "\"") + (a[0] == 'u' ? std::string("unix:/vfs/run/*.sock") : a.substr(0, a.find(':')) + "/32:" + a.substr(a.find(':') + 1)) + "\"";
	vfs_put("/vfs/angel.conf", "binary \"/vfs/bin/worker\";\nconfig \"/vfs/w.conf\";\nallow_listen [ " + allow + " ];\n");
	sut_argv = {"lighttpd2", "-c", "/vfs/angel.conf", "-m", getenv("SIM_MODDIR") ? getenv("SIM_MODDIR") : "."};
	chaos_calls = chance("cfg.calls", 0.7);
	on_socketpair = [](LinkOpts &lo, ChildEnd *) -> Peer * {
		lo.lat = (vtime)pick_log("ctl.lat", 5, 3000) * US; lo.split = weighted("ctl.split", {3, 1, 1}) * 0.4;
		static const size_t caps[] = {65536, 4096, 300, 40}; lo.sndcap = lo.rcvcap = caps[weighted("ctl.cap", {4, 1, 1, 1})];
		Inst *i = new Inst; i->idx = insts.size(); insts.push_back(i); pending_pair = i; return i;
	};
	on_fork = do_fork; on_kill = do_kill; on_waitpid = do_waitpid;
	on_scm_send = [](Stream *s, std::vector<int> fds) { ActorSock *a = s->c->actor[1 - s->side]; if (a && a->peer) for (int fd : fds) { File *f = fd_get(fd); if (!f) violation("P22", "bad-fd", "descriptor %d passed to an instance is not open", fd); Inst *i = (Inst *)a->peer; if (i->alive) i->on_scm(f); } };
	final_hups = (int)pick("cfg.fhups", 1, 3);
	bool faults = !cfg.faults_off && chance("cfg.faults", 0.8);
	after(1 * MS, [faults]() {
		if (faults) {
			auto f = [](const char *n, double p, double hi) { if (chance(n, p)) set_fault(n, hi * (1 + decide(n, 4)) / 4); };
			f("fork_fail", 0.25, 0.3); f("socketpair_fail", 0.15, 0.3); f("pipe_fail", 0.15, 0.3); f("dup_fail", 0.2, 0.4); f("bind_fail", 0.1, 0.4); f("socket_emfile", 0.1, 0.3);
			f("short_read", 0.3, 0.5); f("short_write", 0.3, 0.5); f("eagain_read", 0.2, 0.3); f("eagain_write", 0.2, 0.3); f("eintr_read", 0.2, 0.3); f("eintr_write", 0.2, 0.3); f("epoll_eintr", 0.2, 0.2); f("stall", 0.1, 0.02); f("open_eio", 0.1, 0.3);
		}
		invariants();
	});
	if (cfg.faults_off) calm = true;
	vtime dur = (vtime)(2 + pick_log("cfg.dur", 0, 60)) * SEC;
	int nh = weighted("cfg.nhup", {1, 2, 2, 1}) * 2;
	for (int k = 0; k < nh; ++k) at(50 * MS + (vtime)pick("hup.at", 0, dur / MS) * MS, []() { hup(); if (chance("hup.burst", 0.2)) after(dly("hup.again", 30), hup); });
	// instances that run happily may still die
	int nk = cfg.faults_off ? 0 : (int)pick("cfg.kills", 0, 4);
	for (int k = 0; k < nk; ++k) at(50 * MS + (vtime)pick("kill.at", 0, dur / MS) * MS, []() {
		std::vector<Inst *> v; for (Inst *i : insts) if (i->alive) v.push_back(i);
		if (v.size() && !calm) v[decide("kill.who", v.size())]->die(chance("kill.exit", 0.3) ? 256 : SIGKILL, "killed");
	});
	if (chance("cfg.earlystop", 0.3)) at(50 * MS + (vtime)pick("stop.at", 0, dur / MS) * MS, []() { stop_angel("random"); });
	at(dur + 60 * MS, []() {
		if (stopping) return;
		clear_faults(); calm = true; t_calm = now(); tr("calm");
		for (Inst *i : insts) i->die_after_events = -1;
		wait_runner(now(), false);
	});
}
ScenarioReg r("angel", setup, "angel");
}
