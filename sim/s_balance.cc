// mod_balance: failover, backlog, recovery and distribution over several backends with outages.
#include "backend.h"
#include <algorithm>
using namespace sim;
namespace {
std::vector<Backend *> bes; std::vector<BackConn *> conns; BKind kind; bool nested; int method; vtime all_up = -1; bool outage_over = true; int outages_left;
std::map<std::string, int> final_seen; int stage, final_left; bool final_done;
std::set<int> killed; vtime idle_kill = -1;    // a connection without a request was killed: one may have been on its way to it
bool bad(Plan *p) { return p->fault != BF_NONE || killed.count(p->id) || (!p->seen && idle_kill >= 0 && now() - idle_kill < 2 * SEC + stalled_total); }
void check_waiting() {      // every request that was waiting when the last backend came back has been passed on by now
	for (Client *k : all_clients) if (!k->over) {
		if (k->got >= k->next) continue; Req &q = k->reqs[k->got]; Plan *p = plans[q.tag];
		vtime base = std::max(std::max(q.t_full, k->t_last_resp), all_up); vtime slack = 40 * SEC + stalled_total + (vtime)(q.bytes.size() / k->link.rcvcap + 4) * 4 * k->link.lat; if (k->link.bw) slack += (vtime)((double)(q.bytes.size() + 1000) / k->link.bw * SEC);
		if (q.t_full && !p->seen && now() - base > slack && all_up >= 0) violation("P20,P10,P07", "forgotten", "request %d is still waiting %.0f s after every backend is reachable again", p->id, (now() - base) / 1e9);
	}
	after(5 * SEC, check_waiting);
}
void final_round() {
	int n = bes.size();
	for (int i = 0; i < n; ++i) after(i * 200 * MS, []() {
		Client *k = new_client(); k->malformed_prop = "P20,P02"; Plan *p = rand_plan(kind, false, 100); p->method = "GET"; p->head = false; p->has_body = false; p->body.clear(); p->chunked = false; p->status = 200; p->nobody = false; p->interim = false; p->rbody = "final"; p->framing = kind == B_PROXY ? Plan::CL : Plan::CLOSE; p->http10 = false; p->delay = 8 * SEC; p->piece = 0; build_wire(p);
		Req q; q.tag = p->id; q.name = strf("final plan %d", p->id); q.bytes = plan_request(p); q.check = [p](Response &r) { if (!r.has("X-Plan-Id")) violation("P20,P07", "no-recovery", "request answered %d although every backend is fine again", r.status); check_plan_response(p, r); };
		k->reqs.push_back(q); k->on_end = [](Client *k) { if (!k->all_answered()) violation("P20,P02", "conn-broken", "connection ended with state %d without an answer", (int)k->end); if (--final_left == 0) final_done = true; };
		k->start(listen_addr);
	});
	final_left = n;
	after(n * 200 * MS + 3 * SEC, []() {
		if (nested) return;
		std::string s; bool bad = false; for (auto *b : bes) { int c = final_seen[b->addr]; s += strf(" %d", c); if (c != 1) bad = true; }
		if (bad) violation("P20", "distribution", "%s: %zu concurrent requests, every backend up and idle: requests per backend:%s", method ? "balance.sqf" : "balance.rr", bes.size(), s.c_str());
	});
}
}
static void balance_setup() {
	leak_ignore = {"g_ptr_array_add", "g_ptr_array_new", "g_slice_alloc0<li_backend_get"};   // pools of a balancer are only freed by the event loop, which ended before: once per process
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); kind = (BKind)decide("b.kind", 3);
	c.modules = {"mod_balance", "mod_proxy", "mod_scgi", "mod_fastcgi"}; vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n");
	int n = 1 + decide("b.n", 4); method = decide("b.method", 2); nested = n > 1 && chance("b.nested", 0.25); int depth = chance("b.deep", 0.3) ? decide("b.depth", 12) : 0;
	std::vector<std::string> acts;
	for (int i = 0; i < n; ++i) {
		std::string a = decide("b.unix", 3) == 1 ? strf("unix:/vfs/b%d.sock", i) : strf("127.0.0.1:%d", 9001 + i); Backend *b = add_backend(kind, a); bes.push_back(b);
		b->l.accept = [b]() -> Peer * { BackConn *k = new BackConn(b->kind); k->addr = b->addr; k->on_complete = [](BackConn *k) { final_seen[k->addr]++; if (!k->replied) { k->replied = true; after(k->p->delay, [k]() { k->reply(); }); } }; conns.push_back(k); return k; };
		acts.push_back(std::string("{ ") + (kind == B_PROXY ? "proxy" : kind == B_SCGI ? "scgi" : "fastcgi") + " \"" + a + "\"; }");
		if (chance("b.adeep", 0.15)) { int w = decide("b.awrap", 10); for (int j = 0; j < w; ++j) acts.back() = "{ if req.path =^ \"/\" " + acts.back() + " }"; }
	}
	auto join = [](std::vector<std::string> v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ", ") + x; return v.size() == 1 ? s : "(" + s + ")"; };
	std::string m = method ? "balance.sqf " : "balance.rr ", body;
	if (nested) {
		int cut = 1 + decide("b.cut", n - 1); std::vector<std::string> a(acts.begin(), acts.begin() + cut), b(acts.begin() + cut, acts.end());
		std::string in = std::string("{ ") + (decide("b.m2", 2) ? "balance.sqf " : "balance.rr ") + join(a) + "; }"; b.insert(b.begin() + decide("b.pos", b.size() + 1), in); body = m + join(b) + ";";
	} else body = m + join(acts) + ";";
	for (int i = 0; i < depth; ++i) body = "if req.path =^ \"/\" { " + body + " }";
	c.actions = "keepalive.timeout 300;\ndocroot \"/vfs/www\";\nif req.path == \"/probe\" { static; } else { " + body + " }\n"; tr("config %s", body.c_str());
	write_config(c);
	when_listening([f]() {
		vtime last = 0; int no = f ? decide("b.no", 6) : 0; all_up = 0; std::vector<int> *down = new std::vector<int>(bes.size(), 0);
		bool total = f && chance("b.total", 0.3);       // a phase without any backend
		for (int i = 0; i < no + (total ? (int)bes.size() : 0); ++i) {
			size_t bi = i < no ? decide("b.be", bes.size()) : i - no; Backend *b = bes[bi]; static vtime tt, td; if (i == no) tt = pick_log("b.at", 1, 8000) * MS, td = pick_log("b.len", 1, 15000) * MS;
			vtime t = i < no ? pick_log("b.at", 1, 15000) * MS : tt, d = i < no ? pick_log("b.len", 1, 15000) * MS : td; static const ConnPolicy ps[] = {CP_REFUSE, CP_REFUSE_NOW, CP_BLACKHOLE, CP_UNREACH, CP_EAGAIN}; ConnPolicy cp = ps[decide("b.pol", 5)]; bool kill = chance("b.kill", 0.3); last = std::max(last, t + d);
			after(t, [=]() { tr("backend %s down %d", b->addr.c_str(), (int)cp); (*down)[bi]++; b->down = true; b->down_policy = cp; if (kill) for (size_t j = 0; j < conns.size(); ++j) { BackConn *k = conns[j]; if (!k->over && k->addr == b->addr) { if (k->p) killed.insert(k->p->id); else { idle_kill = now(); for (Client *c : all_clients) for (auto &q : c->reqs) if (q.started && !q.answered && !plans[q.tag]->seen) killed.insert(q.tag); } probe("backend_killed"); k->s->abort(); k->gone(); } } });
			after(t + d, [=]() { if (--(*down)[bi] == 0) { tr("backend %s up", b->addr.c_str()); b->down = false; } });
		}
		if (last) { all_up = -1; after(last + 1 * MS, []() { all_up = now(); }); }
		after(5 * SEC, check_waiting);
		int nc = 1 + decide("b.nc", 8);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P20,P02,P05"; k->depth = 1 + weighted("b.depth2", {5, 1});
			int nr = 1 + decide("b.nr", 8);
			for (int j = 0; j < nr; ++j) {
				Plan *p = rand_plan(kind, f && chance("b.pf", 0.3), chance("b.big", 0.05) ? 300000 : 20000); if (p->fault == BF_HANG) p->fault = BF_CLOSE_BEFORE;
				Req q; q.head = p->head; q.tag = p->id; q.name = strf("plan %d", p->id); q.bytes = plan_request(p); q.think = chance("b.think", 0.5) ? pick_log("b.thinkms", 1, 4000) * MS : 0;
				q.check = [p](Response &r) {
					p->answered = true;
					if (r.has("X-Plan-Id")) { if (p->fault == BF_NONE && !killed.count(p->id)) { check_plan_response(p, r); stat_add("relayed", 1); } else if (r.get("X-Plan-Id") != strf("%d", p->id)) violation("P20,P06", "cross-talk", "plan %d answered with the response of plan %s", p->id, r.get("X-Plan-Id").c_str()); return; }
					if (r.status < 500) violation("P20,P05,P07", "status", "plan %d: status %d generated by the server", p->id, r.status);
					stat_add("server_error", 1);
					if (!bad(p)) violation("P20,P07", "spurious-error", "plan %d: answered %d although it never reached a failing backend (seen %d)", p->id, r.status, p->seen);
				};
				k->reqs.push_back(q);
			}
			if (f && chance("b.abort", 0.25)) { k->abort_at = pick_log("b.abat", 1, 15000) * MS; k->abort_rst = chance("b.abrst", 0.5); }
			k->on_end = [](Client *k) {
				stat_add("responses", k->got); nontrivial(k->got * 5 + k->depth);
				if (k->end == Client::DONE || k->end == Client::ABORTED) return;
				size_t i = k->got; if (i >= k->reqs.size() || (i > 0 && k->saw_close)) return;
				if (i > 0 && bad(plans[k->reqs[i - 1].tag])) return;
				for (size_t j = i; j < k->next && j < k->reqs.size(); ++j) if (bad(plans[k->reqs[j].tag])) return;
				violation("P20,P02,P05", "conn-broken", "%s: connection ended with state %d before every response arrived (plan %d)", k->desc().c_str(), (int)k->end, (int)k->reqs[i].tag);
			};
			track(k); after(pick_log("b.start", 0, 8000) * MS, [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P20,P10,P02,P07"; o.client_deadline = 2000 * SEC;
		o.extra_done = []() {
			if (stage == 0) { if (all_up < 0) return false; stage = 1; clear_faults(); after(12 * SEC, []() { final_seen.clear(); final_round(); }); }
			return final_done;
		};
		o.idle_cond = []() { return BackConn::open_now ? strf("%d backend connection(s) still open although no request is left", BackConn::open_now) : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("balance", balance_setup);
