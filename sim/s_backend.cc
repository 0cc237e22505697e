// Proxy / SCGI / FastCGI requests against scripted backends with failures.
#include "backend.h"
using namespace sim;
static std::vector<Backend *> bes;
static void schedule_outages() {
	int n = decide("out.n", 4);
	for (int i = 0; i < n; ++i) {
		Backend *b = bes[decide("out.be", bes.size())];
		vtime t = pick_log("out.at", 1, 20000) * MS, d = pick_log("out.len", 1, 15000) * MS;
		static const ConnPolicy ps[] = {CP_REFUSE, CP_REFUSE_NOW, CP_BLACKHOLE, CP_UNREACH, CP_EAGAIN};
		ConnPolicy cp = ps[decide("out.pol", 5)];
		after(t, [b, cp]() { tr("backend %s down %d", b->addr.c_str(), (int)cp); b->down = true; b->down_policy = cp; });
		after(t + d, [b]() { tr("backend %s up", b->addr.c_str()); b->down = false; });
	}
}
static bool bk_faults;
static int64_t disk_trouble() { int64_t n = 0; for (auto *f : {"disk_enospc", "disk_write_eio", "disk_read_eio", "mkstemp_err"}) n += faults[fault_id(f)].fired; return n; }
static void backend_setup() {
	ServerCfg c; bool f = bk_faults = !cfg.faults_off; common_knobs(c, f);
	c.modules = {"mod_proxy", "mod_scgi", "mod_fastcgi"};
	vfs_mkdirs("/var/tmp");
	vfs_put("/vfs/www/probe", "probe-ok\n");
	std::string addr[3] = {"127.0.0.1:9001", "127.0.0.1:9002", "127.0.0.1:9003"};
	if (decide("knob.unix", 2)) { addr[2] = "unix:/vfs/fcgi.sock"; if (decide("knob.unix2", 2)) addr[1] = "unix:/vfs/scgi.sock"; }
	for (int k = 0; k < 3; ++k) bes.push_back(add_backend((BKind)k, addr[k]));
	c.actions = "keepalive.timeout 300;\n";
	if (chance("knob.nobuf", 0.3)) c.actions += "buffer_request_body false;\n";
	bool nobuf = c.actions.find("buffer_request_body") != std::string::npos;
	c.actions += "docroot \"/vfs/www\";\n"
		"if req.path =^ \"/p/\" { proxy \"" + addr[0] + "\"; }\n"
		"else if req.path =^ \"/s/\" { scgi \"" + addr[1] + "\"; }\n"
		"else if req.path =^ \"/f/\" { fastcgi \"" + addr[2] + "\"; }\n";
	if (f) {
		static const double r[] = {0, 0, 0.01, 0.1};
		set_fault("disk_enospc", r[decide("knob.enospc", 4)]);
		set_fault("disk_write_eio", r[decide("knob.eio", 4)]); set_fault("disk_eintr", r[decide("knob.deintr", 3)]);
		set_fault("disk_short_write", r[decide("knob.dshort", 4)]);
		set_fault("disk_short_read", r[decide("knob.dshortr", 4)]);
		set_fault("mkstemp_err", r[decide("knob.mkst", 4)]);
	}
	if (f && chance("knob.coabort", 0.15)) {
		// a client gives up at about the time a backend connection is established
		set_fault("late_wakeup", 0.5);
		for (auto *b : bes) {
			auto pol = b->l.policy; int pr = 1 + decide("coabort.n", 4); b->l.connect_delay = pick_log("coabort.cd", 100, 20000) * US;
			b->l.policy = [pol, pr, b]() {
				if (!decide("coabort", pr)) {
					std::vector<Client *> w; for (Client *k : all_clients) if (!k->over && k->got < k->next && k->reqs[k->got].tag && k->reqs[k->got].t_full && !plans[k->reqs[k->got].tag]->seen) w.push_back(k);
					if (!w.empty()) { Client *k = w[decide("coabort.who", w.size())]; bool rst = decide("coabort.rst", 2); after(std::max<vtime>(0, b->l.connect_delay - k->link.lat - (vtime)decide("coabort.us", 100) * US), [k, rst]() { if (k->over) return; probe("abort_at_backend_connect"); tr("client %d aborts at backend connect", k->id); k->giveup(rst); }); }
				}
				return pol();
			};
		}
	}
	write_config(c);
	when_listening([nobuf, f]() {
		if (f) { schedule_outages(); static const double r[] = {0, 0, 0.01, 0.1}; set_fault("disk_read_eio", r[decide("knob.reio", 4)]); }
		int nc = 1 + decide("n.clients", 5);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P02,P05,P06";
			k->depth = 1 + weighted("depth", {4, 1, 1});
			if (chance("slowrd", 0.2)) { k->pause_every = pick_log("pause.every", 1000, 100000); k->pause_for = pick_log("pause.ms", 1, 2000) * MS; }
			int nr = 1 + decide("n.reqs", 5);
			for (int j = 0; j < nr; ++j) {
				Req q;
				if (chance("req.static", 0.1)) { q.bytes = req("GET", "/probe", "Host: be\r\n"); q.name = "/probe"; q.check = [](Response &r) { if (r.status != 200 || r.body != "probe-ok\n" || r.has("X-Plan-Id")) violation("P06,P02", "cross-talk", "static request answered %d", r.status); }; k->reqs.push_back(q); continue; }
				Plan *p = rand_plan((BKind)decide("req.kind", 3), f, chance("big", 0.1) ? 3000000 : 400000);
				if (nobuf) p->chunked = false, p->early = f && p->has_body && chance("early", 0.1);
				p->tag = strf("%d.%d", k->id, j);
				q.head = p->head; q.tag = p->id; q.name = strf("plan %d", p->id);
				q.bytes = plan_request(p);
				if (p->has_body && chance("expect", 0.1)) { size_t e = q.bytes.find("\r\n\r\n"); q.bytes.insert(e, "\r\nExpect: 100-continue"); }
				q.think = chance("think", 0.2) ? pick_log("think.ms", 1, 3000) * MS : 0;
				if (chance("trickle", 0.4)) { q.trickle = pick_log("trickle.n", 1, 5000); q.gap = pick_log("trickle.us", 1, 20000) * US; if ((int64_t)q.bytes.size() / q.trickle > 300) q.trickle = q.bytes.size() / 300 + 1; }
				Req *dummy = nullptr; (void)dummy;
				// the client gives up in the middle of the upload
				if (p->has_body && j == nr - 1 && p->body.size() > 1 && f && chance("cutup", 0.15)) {
					size_t hl = q.bytes.find("\r\n\r\n") + 4; size_t mx = q.bytes.size() - (p->chunked ? 6 : 1);
					q.bytes.resize(hl + decide("cut.n", mx - hl)); p->client_gave_up = true;
					q.cut = 1 + decide("cut.kind", 3); q.cut_delay = pick_log("cut.ms", 1, 3000) * MS;
				}
				q.check = [p, k](Response &r) {
					p->answered = true;
					if (p->client_gave_up) { if (r.status < 400) violation("P04", "answered-incomplete", "plan %d: incomplete upload answered with %d", p->id, r.status); return; }
					bool own = r.has("X-Plan-Id");
					Req &q = k->reqs[k->got - 1];
					if (own) {
						if (p->early && p->framing == Plan::CLOSE && p->kind != B_FCGI && !p->nobody && r.body.size() < p->rbody.size()) {
							// the backend closes with unread data: its reset may cut off a close-delimited body
							Plan q = *p; q.rbody = p->rbody.substr(0, r.body.size()); check_plan_response(&q, r); return;
						}
						if (p->fault == BF_NONE) { check_plan_response(p, r); stat_add("relayed", 1); return; }
						switch (p->fault) {
						case BF_TRUNC_FIN: case BF_TRUNC_RST: {
							// a complete looking response: only acceptable if nothing that matters was cut off
							// (a close-delimited body counts as complete however the connection ends, RFC 7230 3.4)
							if (p->kind == B_FCGI || p->framing != Plan::CLOSE || p->nobody) { check_plan_response(p, r); return; }
							size_t sent = p->cut > p->head_len ? p->cut - p->head_len : 0;
							if (p->cut < p->head_len) violation("P05", "truncated-head", "plan %d: backend closed inside the response head but the client got a complete response with status %d", p->id, r.status);
							if (p->fault == BF_TRUNC_RST) sent = std::min(sent, r.body.size());
							Plan q = *p; q.rbody = p->rbody.substr(0, sent); check_plan_response(&q, r); return;
						}
						case BF_FCGI_STATUS: check_plan_response(p, r); return;
						default: violation("P05", "masked-failure", "plan %d: backend failed with kind %d but the client got a complete response with status %d", p->id, (int)p->fault, r.status);
						}
					}
					// an answer generated by the server itself
					if (r.status < 500) violation("P02,P04,P05,P06,P07", "status", "plan %d: status %d generated by the server", p->id, r.status);
					stat_add("server_error", 1);
					bool excused = p->fault != BF_NONE || connect_failures != (int)q.aux || q.t_sent < connect_trouble_until + stalled_total || disk_trouble() > q.aux2;
					if (p->early) excused = true;
					if (!excused) violation("P02,P04,P05,P06,P07", "spurious-error", "plan %d: answered %d although the backend was fine", p->id, r.status);
					// bounded: connect + wait timeouts are 5 s each
					vtime base = std::max(q.t_full, q.prev_done);
					vtime slack = 15 * SEC + p->delay + (p->piece > 0 ? (vtime)(p->wire.size() / p->piece + 1) * p->gap : 0) + 4 * k->link.lat * (4 + (vtime)(q.bytes.size() / k->link.rcvcap)) + stalled_total;
					if (k->link.bw) slack += (vtime)((double)(q.bytes.size() + 1000) / k->link.bw * SEC);
					if (p->t_seen == 0 && now() - base > slack) violation("P07", "late-error", "plan %d: error response after %.1f s", p->id, (now() - base) / 1e9);
				};
				k->reqs.push_back(q);
				if (p->fault == BF_HANG) { // the client has to give up: it is the last request
					k->reqs.back().giveup = pick_log("hang.ms", 50, 20000) * MS;
					break;
				}
			}
			k->on_sent = [](Client *k, Req &q) { q.aux = connect_failures; q.aux2 = disk_trouble(); (void)k; };
			k->on_end = [](Client *k) {
				stat_add("responses", k->got); nontrivial(k->got * 5 + k->depth);
				if (k->end == Client::DONE || k->end == Client::ABORTED) return;
				// find the request that was being answered
				size_t i = k->got; if (i >= k->reqs.size()) return;
				Plan *p = k->reqs[i].tag ? plans[k->reqs[i].tag] : nullptr;
				// a backend failure has to become visible to the client soon, not after some idle timeout
				if (p && p->fault != BF_NONE && p->fault != BF_HANG && p->t_closed && !p->client_gave_up) {
					vtime ref = std::max(p->t_closed, k->t_last_rx);
					for (auto &q : k->reqs) if (q.started) ref = std::max(ref, q.t_full);
					vtime slack = 20 * SEC + 20 * k->link.lat + stalled_total;
					size_t up = 0; for (auto &q : k->reqs) if (q.started) up += q.bytes.size();
					if (k->link.bw) slack += (vtime)((double)up / k->link.bw * SEC); slack += (vtime)(up / k->link.rcvcap + 1) * 2 * k->link.lat;
					if (k->pause_every) slack += 20 * SEC;
					if (now() - ref > slack) violation("P07,P09", "late-abort", "plan %d: client connection was only closed %.1f s after the backend had failed", p->id, (now() - ref) / 1e9);
				}
				if (i > 0 && k->saw_close) return;     // the previous response announced the close
				bool diskf = disk_trouble() > 0;
				if (i > 0 && k->reqs[i-1].tag && plans[k->reqs[i-1].tag]->fault != BF_NONE) return; // the backend failed after a complete response
				// a later pipelined request failed: the connection is aborted, responses in flight may be lost to the reset
				for (size_t j = i; j < k->next && j < k->reqs.size(); ++j) if (k->reqs[j].tag && (plans[k->reqs[j].tag]->fault != BF_NONE || plans[k->reqs[j].tag]->early || (diskf && plans[k->reqs[j].tag]->has_body))) return;
				for (auto &q : k->reqs) if (q.tag && plans[q.tag]->client_gave_up) return;           // end of file or reset from the client cancels everything
				bool ok = (!p && faults[fault_id("disk_read_eio")].fired) || p && (p->fault != BF_NONE || p->client_gave_up || (diskf && p->has_body) || p->early);
				if (!ok) violation("P02,P04,P05,P06,P07", "conn-broken", "%s: connection ended with state %d before every response arrived (plan %d)", k->desc().c_str(), (int)k->end, p ? p->id : 0);
				stat_add("visible_cut", 1);
			};
			track(k);
			after(late_wave() + pick_log("start.ms", 0, 3000) * MS, [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P02,P04,P05,P06,P07,P09,P10";
		o.idle_cond = []() { return BackConn::open_now ? strf("%d backend connection(s) still open although no request is left", BackConn::open_now) : std::string(); };
		o.on_idle = []() {
			for (auto &n : vfs_list("/var/tmp")) violation("P09", "tempfile-leak", "temporary file /var/tmp/%s left behind", n.c_str());
		};
		run_to_end(o);
	});
}
static ScenarioReg r1("backend", backend_setup);
