#include "harness.h"
#include <signal.h>
namespace sim {
std::vector<Client *> all_clients;
static int open_clients = 0;
static EndOpts eo;
static vtime traffic_start;
void track(Client *c) {
	all_clients.push_back(c); ++open_clients;
	auto prev = c->on_end;
	c->on_end = [prev](Client *k) { --open_clients; if (prev) prev(k); };
}
std::string req(const std::string &method, const std::string &path, const std::string &headers, const std::string &body, int minor) {
	return method + " " + path + strf(" HTTP/1.%d\r\n", minor) + headers + "\r\n" + body;
}
static void stop_now() {
	tr("end: SIGTERM");
	static EvId guard;
	vtime t0 = now();
	guard = after(eo.stop_bound, [t0]() { violation("P09,P10,P11", "shutdown-hang", "process still running %.0f s after SIGTERM although every connection was finished before", (now() - t0) / 1e9); });
	on_main_return = []() { cancel(guard); if (eo.final_check) eo.final_check(); };
	send_sigterm();
}
static void wait_idle(vtime deadline) {
	int want = baseline_fds + eo.fd_slack;
	std::string why = eo.idle_cond ? eo.idle_cond() : std::string();
	if (why.empty() && live_sut_conns == 0 && (!eo.check_fds || fd_leakable() <= want)) {
		tr("end: idle, fds %d", fd_leakable());
		if (eo.on_idle) eo.on_idle();
		after(10 * MS, stop_now);
		return;
	}
	static uint64_t seen_bytes; static vtime limit;
	if (!limit) limit = now() + 3600 * SEC;
	if (net_bytes != seen_bytes) { seen_bytes = net_bytes; if (now() < limit) deadline = now() + eo.idle_deadline; }   // a slow link is still delivering what was sent before
	if (now() > deadline) {
		if (live_sut_conns) violation("P09", "connection-leak", "%d accepted connection(s) still open %.0f s after every client finished: %s", live_sut_conns, eo.idle_deadline / 1e9, fd_describe().c_str());
		if (why.size()) violation("P09", "not-idle", "%s %.0f s after every client finished", why.c_str(), eo.idle_deadline / 1e9);
		violation("P09", "fd-leak", "%d descriptors open, baseline %d (+%d): %s", fd_leakable(), baseline_fds, eo.fd_slack, fd_describe().c_str());
	}
	after(500 * MS, [deadline]() { wait_idle(deadline); });
}
static void do_probe() {
	clear_faults();
	if (eo.probe_path.empty()) { wait_idle(now() + eo.idle_deadline); return; }
	Client *c = new_client();
	Req q; q.bytes = req("GET", eo.probe_path, "Host: " + eo.probe_host + "\r\nConnection: close\r\n"); q.name = "probe";
	q.check = [](Response &r) { if (r.status != 200) violation(eo.live_prop, "unresponsive", "probe request answered %d after faults stopped", r.status); };
	c->reqs.push_back(q);
	vtime t0 = now();
	EvId *ev = new EvId;
	*ev = after(eo.probe_bound, [t0]() { violation("*", "unresponsive", "server did not answer a probe request within %.0f s after faults stopped", (now() - t0) / 1e9); });
	c->on_end = [ev](Client *k) {
		cancel(*ev);
		if (!k->all_answered()) violation("*", "unresponsive", "probe connection ended (%d) without an answer after faults stopped", (int)k->end);
		after(1 * MS, []() { wait_idle(now() + eo.idle_deadline); });
	};
	c->start(listen_addr);
}
static void poll_done() {
	if (open_clients == 0 && (!eo.extra_done || eo.extra_done())) { tr("end: traffic done"); after(1 * MS, do_probe); return; }
	if (now() - traffic_start > eo.client_deadline) {
		std::string s; for (Client *c : all_clients) if (!c->over) s += " " + c->desc();
		violation(eo.live_prop, "stuck", "traffic not finished after %.0f s: %d client(s) open:%s", eo.client_deadline / 1e9, open_clients, s.c_str());
	}
	after(50 * MS, poll_done);
}
vtime late_wave() {
	static int on = -1; static vtime gap;
	if (on < 0) { on = chance("wave.on", 0.06); gap = (vtime)pick("wave.gap", 20, 400) * SEC; }
	if (!on) return 0;
	return (vtime)decide("wave.n", 4) * gap;
}
void run_to_end(const EndOpts &o) { eo = o; traffic_start = now(); poll_done(); }
}
