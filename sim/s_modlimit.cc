// limit.con, limit.con_ip, limit.req, limit.req_ip: exact counting, slots always released.
#include "harness.h"
#include <algorithm>
using namespace sim;
namespace {
struct Rec { vtime sent, resp = -1, gone = -1; int kind; std::string ip; bool admitted = false, rejected = false; };
std::vector<Rec *> recs;
int limit[4]; const char *lname[4] = {"limit.con", "limit.con_ip", "limit.req", "limit.req_ip"};
std::map<std::string, int> at_backend; int at_backend_all;
struct Hold : Peer {        // a request that reached the backend holds a slot
	std::string in, ip; int kind = -1; bool over = false, counted = false; static int open_now;
	Hold() { ++open_now; }
	void dec() { if (counted) { counted = false; if (kind == 0) --at_backend_all; else if (kind == 1) --at_backend[ip]; } }
	void gone() { if (!over) { over = true; --open_now; dec(); } }
	void on_data(const char *p, size_t n) override {
		in.append(p, n); if (in.find("\r\n\r\n") == std::string::npos || kind >= 0) return;
		kind = in[5] - '0'; size_t q = in.find("X-Ip: "); ip = in.substr(q + 6, in.find("\r\n", q) - q - 6);
		counted = true;
		int cnt = kind == 0 ? ++at_backend_all : kind == 1 ? ++at_backend[ip] : 0;
		if (kind < 2 && cnt > limit[kind]) violation("P14", "over-limit", "%s %d: %d requests are being handled at the same time%s", lname[kind], limit[kind], cnt, kind ? (" for " + ip).c_str() : "");
		if (kind < 2 && cnt == limit[kind]) probe("limit_reached");
		after(pick_log("ml.hold", 0, 4000) * MS, [this]() { if (over) return; dec(); s->send("HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nbak"); });
	}
	void on_eof() override { s->close(); gone(); }
	void on_reset() override { gone(); }
};
int Hold::open_now = 0;
BackendListener bl;
vtime slack() { return 300 * MS + stalled_total; }
void judge(Rec *r) {
	int k = r->kind, n = 0;
	if (r->rejected) {
		probe("rejected");
		for (Rec *o : recs) {
			if (o == r || o->kind != k || (k % 2 && o->ip != r->ip)) continue;
			if (o->rejected) continue;
			vtime end = o->gone >= 0 ? o->gone + 3 * SEC : o->resp >= 0 ? o->resp : now();
			// possibly occupying a slot at some moment of [sent, resp]
			if (k < 2) { if (o->sent <= r->resp && end + slack() >= r->sent) ++n; }
			else if (o->sent <= r->resp && end + slack() + 1100 * MS >= r->sent) ++n;
		}
		if (n < limit[k]) violation("P14", "rejected-below-limit", "%s %d: request rejected although at most %d other(s) could have been counted", lname[k], limit[k], n);
	} else if (k >= 2) {
		// admitted for certain within the same second
		for (Rec *o : recs) if (o->kind == k && o->admitted && !(k % 2 && o->ip != r->ip) && o->sent >= r->resp - 950 * MS && o->resp <= r->resp && stalled_total == 0) ++n;
		if (n > 2 * limit[k]) violation("P14", "over-rate", "%s %d: %d requests admitted within one second", lname[k], limit[k], n);
	}
}
int final_left; bool final_done; int stage;
Client *mkclient(const std::string &ip) { Client *k = new_client(); k->malformed_prop = "P14,P02"; k->from = ip + strf(":%d", 20000 + k->id); return k; }
Req mkreq(Client *k, int kind, const std::string &ip, bool must) {
	Req q; q.name = lname[kind]; q.bytes = req("GET", strf("/%d", kind), "Host: h\r\nX-Ip: " + ip + "\r\n"); q.aux = kind;
	q.check = [kind, must, k](Response &r) {
		Rec *rec = (Rec *)k->reqs[k->got - 1].aux2; rec->resp = now();
		if (r.status == 503) rec->rejected = true;
		else if (r.status == 200 && r.body == (kind < 2 ? "bak" : "ok")) rec->admitted = true;
		else violation("P14,P02", "status", "%s: status %d", lname[kind], r.status);
		if (must && rec->rejected) violation("P14", "slot-leak", "%s %d: request rejected although no other request was active: a slot was not released", lname[kind], limit[kind]);
		judge(rec);
	};
	return q;
}
void hook(Client *k, const std::string &ip) {
	k->on_sent = [ip](Client *, Req &q) { Rec *r = new Rec; r->sent = now(); r->kind = q.aux; r->ip = ip; recs.push_back(r); q.aux2 = (int64_t)r; };
	k->on_end = [](Client *k) {
		for (auto &q : k->reqs) if (q.aux2) { Rec *r = (Rec *)q.aux2; if (r->resp < 0) r->gone = now(); }
		stat_add("responses", k->got); nontrivial(k->got);
		if (k->end != Client::DONE && k->end != Client::ABORTED) violation("P14,P02", "conn-broken", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end);
	};
}
std::vector<std::string> ips;
void final_round() {
	stage = 1; int kind = stage - 1; (void)kind;
	// exactly N concurrent requests per limit have to be admitted now
	for (int kd = 0; kd < 2; ++kd) for (auto &ip : ips) {
		if (kd == 0 && ip != ips[0]) continue;
		for (int i = 0; i < limit[kd]; ++i) { Client *k = mkclient(ip); k->reqs.push_back(mkreq(k, kd, ip, true)); hook(k, ip); auto e = k->on_end; ++final_left; k->on_end = [e](Client *c) { if (--final_left == 0) final_done = true; e(c); }; k->start(listen_addr); }
	}
}
}
static void modlimit_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	c.modules = {"mod_limit", "mod_proxy"}; vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n");
	for (int i = 0; i < 4; ++i) limit[i] = 1 + decide("ml.limit", 5);
	bool act = decide("ml.act", 2);
	c.actions = "keepalive.timeout 300;\ndocroot \"/vfs/www\";\n";
	for (int i = 0; i < 4; ++i) {
		std::string l = act ? strf("(%d, { respond 503 => \"limit\"; })", limit[i]) : strf("%d", limit[i]);
		c.actions += strf("%sif req.path == \"/%d\" { %s %s; %s }\n", i ? "else " : "", i, lname[i], l.c_str(), i < 2 ? "proxy \"127.0.0.1:9001\";" : "respond 200 => \"ok\";");
	}
	bl.policy = []() { return CP_OK; }; bl.accept = []() -> Peer * { return new Hold; }; bl.link = []() { return LinkOpts(); };
	net_backend("127.0.0.1:9001", &bl);
	write_config(c);
	when_listening([]() {
		int ni = 1 + decide("ml.ips", 3); for (int i = 0; i < ni; ++i) ips.push_back(strf("10.7.0.%d", i + 1));
		int nc = 1 + decide("ml.n", 10); vtime spread = pick_log("ml.spread", 1, 10000); int focus = decide("ml.focus", 5);
		for (int i = 0; i < nc; ++i) {
			std::string ip = ips[decide("ml.ip", ips.size())];
			Client *k = mkclient(ip); k->link = rand_link(); k->link.bw = 0; k->link.lat = std::min<vtime>(k->link.lat, 5 * MS); k->link.jitter = std::min(k->link.jitter, k->link.lat);
			k->depth = 1 + weighted("ml.depth", {4, 1, 1});
			int nr = 1 + decide("ml.nr", 8);
			for (int j = 0; j < nr; ++j) {
				Req q = mkreq(k, focus < 4 ? focus : (int)decide("ml.kind", 4), ip, false); q.think = chance("ml.think", 0.4) ? pick_log("ml.thinkms", 1, 2500) * MS : 0;
				k->reqs.push_back(q);
			}
			if (chance("ml.abort", 0.3)) { k->abort_at = pick_log("ml.abortms", 1, 6000) * MS; k->abort_rst = decide("ml.rst", 2); }
			hook(k, ip); track(k);
			after(pick("ml.start", 0, spread) * MS, [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P14,P10,P02"; o.client_deadline = 1000 * SEC;
		o.extra_done = []() {
			if (stage == 0) { if (Hold::open_now) return false; stage = 2; clear_faults(); after(3 * SEC + stalled_total, final_round); }
			return final_done;
		};
		o.idle_cond = []() { return Hold::open_now ? strf("%d backend connection(s) still open although no request is left", Hold::open_now) : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("modlimit", modlimit_setup);
