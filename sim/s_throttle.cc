// Rate limits: per connection, shared pool, per client address.
#include "harness.h"
#include <algorithm>
#include <cmath>
using namespace sim;
namespace {
struct Bucket {     // leaky bucket over the bytes the server put into sockets
	double rate, burst; double level = 0; vtime last = 0; std::string name; int conns = 0; bool pool = false; uint64_t total = 0; vtime t0 = -1; int workers = 1;
	double extra = 0;
	void add(size_t n) {
		if (t0 < 0) t0 = now();
		level = std::max(0.0, level - rate * (now() - last) / 1e9); last = now(); level += n; total += n;
		// per connection: 8 KiB credit to get started and up to 64 KiB already taken from the magazine
		double lim = burst * (pool ? 2 : 1) + extra + conns * 82000.0 + rate * 0.6;
		if (level > lim) violation("P13", "too-fast", "%s: %.0f bytes more than rate %.0f/s allows within a window (burst %.0f, %d connection(s))", name.c_str(), level, rate, burst, conns);
	}
};
struct Group { std::string dir; double rate[2] = {0, 0}, burst[2] = {0, 0}; int kind; Bucket *pool = nullptr; std::map<std::string, Bucket *> ip; std::string mem; };
std::vector<Group *> groups;
struct TC { Group *g = nullptr; std::vector<Bucket *> b; Bucket *single = nullptr; };
std::map<std::string, TC *> by_addr;     // client address -> state
double vbytes;
}
static void throttle_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	if (!cfg.faults_off && chance("th.busy", 0.3)) { static const double br[] = {0.01, 0.05, 0.2}; busy_is_stall = false; set_fault("busy", br[decide("th.busyr", 3)]); c.workers = 2 + decide("th.bw", 3); }
	bool sat = chance("th.sat", 0.3);    // a pool shared by workers which are busy all the time and wake up at the same time
	if (sat) { c.workers = 2 + decide("th.bw", 3); if (!cfg.faults_off) { busy_is_stall = false; static const int bm[] = {5000, 20000, 80000}; busy_max = bm[decide("th.bmax", 3)]; set_fault("busy", 0.2); set_fault("late_wakeup", 0.9); late_grid = 10 * MS; set_fault("stall", 0); } }
	if (chance("th.wrap", 0.3)) {       // the 32 bit millisecond counter wraps during the run
		const int64_t W = 4294967296ll; int64_t next = (1700000000000ll / W + 1) * W;
		realtime_off = (next - pick("th.wrapms", 0, 30000)) * MS;
	}
	c.modules = {"mod_throttle"};
	int ng = sat ? 1 : 1 + decide("th.ng", 3); std::string act = "keepalive.timeout 200;\n";
	for (int i = 0; i < ng; ++i) {
		Group *g = new Group; g->kind = sat ? 1 + decide("th.satk", 2) : weighted("th.kind", {2, 4, 2, 1}); g->dir = strf("/g%d", i);
		auto rate = []() { return (double)pick_log("th.rate", 8192, 600000); };
		act += strf("%sif req.path =^ \"%s/\" {", i ? "else " : "", g->dir.c_str());
		if (g->kind == 0 || g->kind == 3) {
			double r = rate(), b = 2 * r; if (decide("th.pair", 2)) { b = std::max(r / 5 + 1, (double)pick_log("th.burst", 1000, 400000)); act += strf(" io.throttle (%.0f, %.0f);", floor(b), r); } else act += strf(" io.throttle %.0f;", r);
			g->rate[0] = r; g->burst[0] = b;
		}
		if (g->kind == 1 || g->kind == 3) { g->rate[1] = rate(); g->burst[1] = g->rate[1]; act += strf(" io.throttle_pool %.0f;", g->rate[1]); g->pool = new Bucket{g->rate[1], g->burst[1]}; g->pool->name = "pool " + g->dir; g->pool->pool = true; g->pool->workers = c.workers; }
		if (g->kind == 2) { g->rate[1] = rate(); g->burst[1] = g->rate[1]; act += strf(" io.throttle_ip %.0f;", g->rate[1]); }
		if (chance("th.mem", 0.4)) {        // a large response from memory: written with writev(), not sendfile()
			std::string big = content(i * 10 + 9, pick_log("th.msize", 20000, 500000)); for (char &ch : big) ch = 'a' + (unsigned char)ch % 26;
			g->mem = big; act += " if req.path == \"" + g->dir + "/mem\" { respond 200 => \"" + big + "\"; }";
		}
		act += " }\n";
		groups.push_back(g);
		for (int f = 0; f < 3; ++f) vfs_put(strf("/vfs/www%s/f%d", g->dir.c_str(), f), content(i * 10 + f, !sat && chance("th.small", 0.3) ? pick_log("th.size", 100, 20000) : (int64_t)std::min(3e6, (double)pick("th.secs", 2, 40) * std::max(g->rate[0], g->rate[1]))));
	}
	vfs_put("/vfs/www/probe", "probe-ok\n");
	c.actions = act + "docroot \"/vfs/www\";\n";
	write_config(c);
	int workers = c.workers;
	on_sut_send = [](Stream *s, size_t n) { auto it = by_addr.find(s->c->addr[0].str); if (it == by_addr.end()) return; for (Bucket *b : it->second->b) b->add(n); vbytes += n; };
	when_listening([workers, sat]() {
		int nc = sat ? 4 + decide("th.n", 5) : 1 + decide("th.n", 6);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->malformed_prop = "P13,P02"; k->link = rand_link();
			bool fast = sat || chance("th.fast", 0.6);
			if (fast) { k->link.lat = std::min<vtime>(k->link.lat, 2 * MS); k->link.jitter = 0; k->link.bw = 0; k->link.sndcap = std::max<size_t>(k->link.sndcap, 65536); k->link.rcvcap = std::max<size_t>(k->link.rcvcap, 65536); }
			else if (chance("th.pause", 0.6)) { k->pause_every = pick_log("th.pe", 10000, 400000); k->pause_for = pick_log("th.pf", 1, 30000) * MS; k->pause_budget = 100 * SEC; }
			Group *g = groups[decide("th.g", groups.size())];
			if (g->kind == 2 && (sat || chance("th.sameip", 0.6))) k->from = strf("10.9.0.1:%d", 40000 + k->id);
			TC *t = new TC; t->g = g; by_addr[mkaddr(k->from).str] = t;
			if (g->rate[0]) { Bucket *b = new Bucket{g->rate[0], g->burst[0]}; b->conns = 1; b->name = strf("client %d (%s)", k->id, g->dir.c_str()); t->b.push_back(b); t->single = b; }
			if (g->pool) { t->b.push_back(g->pool); g->pool->conns++; }
			if (g->kind == 2) { std::string ip = k->from.substr(0, k->from.find(':')); Bucket *&b = g->ip[ip]; if (!b) { b = new Bucket{g->rate[1], g->burst[1]}; b->name = "address " + ip; b->pool = true; b->workers = workers; } b->conns++; t->b.push_back(b); }
			int nr = 1 + decide("th.nr", 3);
			for (int j = 0; j < nr; ++j) {
				Req q; int f = decide("th.f", 3); std::string path = strf("%s/f%d", g->dir.c_str(), f), want = vfs_get("/vfs/www" + path);
				if (!g->mem.empty() && chance("th.usemem", 0.5)) { path = g->dir + "/mem"; want = g->mem; }
				q.name = path; q.bytes = req("GET", path, "Host: h\r\n"); q.think = chance("th.think", 0.3) ? pick_log("th.thinkms", 1, 8000) * MS : 0;
				int id = k->id;
				q.check = [=](Response &r) {
					if (r.status != 200 || r.body != want) violation("P13,P01", "content", "client %d %s: status %d, %zu bytes instead of %zu", id, path.c_str(), r.status, r.body.size(), want.size());
					// fair minimum speed when nothing but the throttle slows the transfer
					if (!fast) return;
					Req &q = k->reqs[k->got - 1]; double took = (now() - q.t_sent) / 1e9; (void)q;
					double tmin = 0; if (g->rate[0]) tmin = want.size() / g->rate[0];
					if (g->rate[1]) { int n = g->pool ? g->pool->conns : 0; if (g->kind == 2) for (auto &x : g->ip) n = std::max(n, x.second->conns); tmin = std::max(tmin, want.size() * (double)std::max(1, n) * (workers > 1 ? 1.5 : 1) / g->rate[1]); }
					if (took > 2.2 * tmin + 12 + stalled_total / 1e9) violation("P13", "too-slow", "client %d %s: %zu bytes took %.1f s, the configured rate allows %.1f s", id, path.c_str(), want.size(), took, tmin);
					probe("speed_checked");
				};
				k->reqs.push_back(q);
			}
			// the burst is granted again with every request (per connection), and when a client address comes back
			k->on_sent = [t, g](Client *k, Req &q) { (void)q; if (t->single && k->got) t->single->extra += g->burst[0]; if (g->kind == 2) { auto &x = g->ip[k->from.substr(0, k->from.find(':'))]; if (x) x->extra += g->burst[1]; } };
			if (!sat && chance("th.abort", 0.15)) { k->abort_at = pick_log("th.abortms", 1, 20000) * MS; k->abort_rst = decide("th.rst", 2); }
			k->on_end = [t, g](Client *k) {
				stat_add("responses", k->got); nontrivial(k->got * 5 + groups.size());
				if (k->end != Client::DONE && k->end != Client::ABORTED) violation("P13,P02", "conn-broken", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end);
			};
			track(k);
			after(pick_log("th.start", 0, 10000) * MS, [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P13,P10,P02"; o.client_deadline = 6000 * SEC;
		o.on_idle = []() { stat_add("throttled_kb", (int64_t)(vbytes / 1024)); };
		run_to_end(o);
	});
}
static ScenarioReg r1("throttle", throttle_setup);
