// mod_progress: what a progress query says about a tracked request, against what really happened to that request.
#include "backend.h"
#include <algorithm>
using namespace sim;
namespace {
struct T { int id; std::string name; Plan *p = nullptr; Client *k = nullptr; size_t body = 0; bool chunked = false, tracked = true, shared = false; vtime t_sent = -1, t_done = -1; size_t head_len = 0; uint64_t rx0 = 0, tx0 = 0, rxe = 0, txe = 0; bool aborted = false; int status = 0; size_t resp_wire = 0; vtime seen_at = -1, t_srv = -1;
	int64_t last_in = -1, last_out = -1; vtime last_q = -1; };
std::vector<T *> ts; std::map<std::string, std::pair<uint64_t, uint64_t>> io; std::map<std::string, vtime> last_tx; int ttl; // by client address
struct Snap { vtime sent; uint64_t dummy; };
uint64_t rx_of(T *t) { return t->t_done >= 0 ? t->rxe : io[t->k->from].first; }
uint64_t tx_of(T *t) { return t->t_done >= 0 ? t->txe : io[t->k->from].second; }
bool num(const std::string &b, const char *n, int64_t &v) { std::string k = strf("\"%s\": ", n); size_t p = b.find(k); if (p == std::string::npos) return false; if (b[p + k.size()] == '-' || !isdigit((unsigned char)b[p + k.size()])) { violation("P27", "number", "%s in %s", n, b.c_str()); } v = (int64_t)strtoull(b.c_str() + p + k.size(), nullptr, 10); return true; }
void check(T *t, Response &r, vtime sent, int form, const std::string &cb) {
	if (r.status != 200) violation("P27", "status", "progress query: status %d", r.status);
	std::string b = r.body; stat_add("queries", 1);
	auto strip = [&](const std::string &pre) { if (b.compare(0, pre.size(), pre) || b.back() != ')') violation("P27", "format", "progress answer '%s' is not wrapped in %s)", b.c_str(), pre.c_str()); b = b.substr(pre.size(), b.size() - pre.size() - 1); };
	if (form == 1) strip("new Object("); else if (form == 2) strip((cb.empty() || cb.find('<') != std::string::npos ? "progress" : cb) + "(");
	if (b.size() < 2 || b[0] != '{' || b.back() != '}') violation("P27", "format", "progress answer '%s'", b.c_str());
	size_t p = b.find("\"state\": \""); std::string st = p == std::string::npos ? "" : b.substr(p + 10, b.find('"', p + 10) - p - 10);
	stat_add(("state." + st).c_str(), 1); vtime slack = 2 * SEC + stalled_total; if (t) tr("progress of %s: %s", t->name.c_str(), b.c_str());
	if (t && t->shared) return;
	if (!t || !t->tracked) { if (st != "unknown") violation("P27,P06", "ghost", "a request that is not tracked is reported as %s", b.c_str()); return; }
	bool known_before = t->seen_at >= 0 && t->seen_at < sent;    // the backend had the request before the query was sent
	if (st == "unknown") {
		if (t->t_done < 0 && tx_of(t) > t->tx0 && now() >= last_tx[t->k->from] + ttl * SEC - SEC - stalled_total) return;  // everything may have been written, it just has not arrived
		if (known_before && !t->aborted && (t->t_done < 0 || now() < t->t_srv + ttl * SEC - SEC - stalled_total)) violation("P27", "lost", "%s is reported as unknown although it had reached the backend before the query%s", t->name.c_str(), t->t_done < 0 ? " and is not finished" : " and finished less than the configured time ago");
		return;
	}
	if (st != "running" && st != "done" && st != "error") violation("P27", "state", "unknown state in '%s'", b.c_str());
	if (t->t_sent < 0 || t->t_sent > now()) violation("P27,P06", "ghost", "%s was not even sent, but is reported as %s", t->name.c_str(), b.c_str());
	if (t->t_done >= 0 && sent > t->t_done + ttl * SEC + SEC + slack) violation("P27,P09", "kept", "%s is still reported (%s) long after it finished", t->name.c_str(), b.c_str());
	if (st == "running" && !t->aborted && t->t_done >= 0 && sent > t->t_done + slack) violation("P27", "stale", "%s is reported as running although the client had the whole response %lld us before the query", t->name.c_str(), (long long)((sent - t->t_done) / US));
	if (st != "running" && !t->aborted && t->t_done < 0 && tx_of(t) == t->tx0) violation("P27", "early", "%s is reported as finished (%s) before a response was sent", t->name.c_str(), b.c_str());
	int64_t in = 0, out = 0, rs = 0, sz = 0;
	if (st == "error") { if (!num(b, "status", sz)) violation("P27", "format", "no status in '%s'", b.c_str()); if (t->t_done >= 0 && !t->aborted && (sz != t->status || sz / 100 == 2)) violation("P27", "error", "%s: reported as failed with status %lld, the client got %d", t->name.c_str(), (long long)sz, t->status); return; }
	if (st == "done" && t->t_done >= 0 && !t->aborted && t->status / 100 != 2) violation("P27", "done", "%s: reported as done, but the client got status %d", t->name.c_str(), t->status);
	if (!num(b, "received", in) || !num(b, "sent", out) || !num(b, "request_size", sz) || !num(b, "response_size", rs)) violation("P27", "format", "'%s'", b.c_str());
	if (in < 0 || out < 0 || rs < 0) violation("P27", "bytes", "%s: %s", t->name.c_str(), b.c_str());
	uint64_t got = rx_of(t) - t->rx0, wrote = tx_of(t) - t->tx0;
	if ((uint64_t)in > t->body || (uint64_t)in > (got > t->head_len ? got - t->head_len : 0)) violation("P27", "bytes", "%s: %lld body bytes reported as received; the body has %zu bytes and the server read %llu bytes including the %zu byte head", t->name.c_str(), (long long)in, t->body, (unsigned long long)got, t->head_len);
	if ((uint64_t)out > wrote) violation("P27", "bytes", "%s: %lld bytes reported as sent, the server wrote %llu", t->name.c_str(), (long long)out, (unsigned long long)wrote);
	if (!t->chunked && (uint64_t)sz != t->body) violation("P27", "size", "%s: request size %lld, really %zu", t->name.c_str(), (long long)sz, t->body);
	if (t->chunked && (uint64_t)sz > t->body) violation("P27", "size", "%s (chunked): request size %llu, body has %zu bytes", t->name.c_str(), (unsigned long long)sz, t->body);
	if (sent >= t->last_q) { if (in < t->last_in || out < t->last_out) violation("P27", "decrease", "%s: received %lld after %lld, sent %lld after %lld", t->name.c_str(), (long long)in, (long long)t->last_in, (long long)out, (long long)t->last_out); t->last_in = in; t->last_out = out; t->last_q = now(); }
	if (st == "done" && !t->aborted) {
		if ((uint64_t)in != t->body) violation("P27", "done-bytes", "%s: done with %lld of %zu bytes received", t->name.c_str(), (long long)in, t->body);
		if (t->t_done >= 0 && (uint64_t)out != wrote) violation("P27", "done-bytes", "%s: done with %lld bytes sent; the server wrote %llu", t->name.c_str(), (long long)out, (unsigned long long)wrote);
		if (rs != out) violation("P27", "done-bytes", "%s: done, sent %lld of %lld", t->name.c_str(), (long long)out, (long long)rs);
	}
}
}
static void progress_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); c.modules = {"mod_progress", "mod_proxy", "mod_scgi", "mod_fastcgi"}; if (c.workers < 2 && decide("pg.w", 3)) c.workers = 2 + decide("pg.nw", 3);
	vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n"); vfs_put("/vfs/www/file", content(5, 50000)); BKind kind = (BKind)decide("pg.kind", 3); add_backend(kind, "127.0.0.1:9001");
	ttl = chance("pg.deft", 0.3) ? 30 : 1 + decide("pg.ttl", 40); if (ttl != 30 || decide("pg.sett", 2)) c.setup += strf("progress.ttl %d;\n", ttl);
	bool nobuf = chance("pg.nobuf", 0.4); static const char *forms[] = {"", " \"legacy\"", " \"jsonp\"", " \"json\""}; int form = decide("pg.form", 4); bool put = chance("pg.put", 0.3);
	c.actions = std::string("keepalive.timeout 300;\n") + (nobuf ? "buffer_request_body false;\n" : "") + (put ? "progress.methods (\"POST\", \"PUT\", \"GET\");\n" : "") + (chance("pg.dbg", 0.2) ? "progress.debug true;\n" : "") + "docroot \"/vfs/www\";\n"
		"if req.path == \"/progress\" { progress.show" + forms[form] + "; } else if req.path == \"/probe\" { static; } else { progress.track; " + (kind == B_PROXY ? "proxy" : kind == B_SCGI ? "scgi" : "fastcgi") + " \"127.0.0.1:9001\"; }\n";
	write_config(c);
	when_listening([f, kind, nobuf, form, put]() {
		on_sut_send = [](Stream *s, size_t n) { io[s->c->addr[0].str].second += n; last_tx[s->c->addr[0].str] = now(); }; on_sut_recv = [](Stream *s, size_t n) { io[s->c->addr[0].str].first += n; };
		vtime span = pick_log("pg.span", 50, 40000) * MS; int nc = 1 + decide("pg.nc", 4); std::string shared = "shared";
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P27,P02,P05"; if (chance("pg.slowrd", 0.3)) { k->pause_every = pick_log("pg.pe", 1000, 100000); k->pause_for = pick_log("pg.pf", 1, 2000) * MS; }
			int nr = 1 + decide("pg.nr", 4);
			for (int j = 0; j < nr; ++j) {
				Plan *p = rand_plan(kind, false, chance("pg.big", 0.15) ? 3000000 : 300000); if (nobuf) p->chunked = false; if (p->interim) { p->interim = false; build_wire(p); }
				T *t = new T; t->id = ts.size(); t->k = k; t->p = p; t->shared = chance("pg.shared", 0.05); t->name = t->shared ? "shared" : strf("id%d", t->id); bool has = !chance("pg.noid", 0.05); t->tracked = has && (p->method == "POST" || (put && (p->method == "PUT" || p->method == "GET"))); if (!has) t->name = strf("none%d", t->id);
				if (has) p->query = (chance("pg.q1", 0.3) ? "a=1&" : "") + std::string("X-Progress-Id=") + t->name + (chance("pg.q2", 0.3) ? "&b=2" : ""); else p->query = "";
				t->body = p->has_body ? p->body.size() : 0; t->chunked = p->has_body && p->chunked; ts.push_back(t);
				Req q; q.head = p->head; q.tag = p->id; q.name = strf("plan %d (%s)", p->id, t->name.c_str()); q.bytes = plan_request(p); t->head_len = q.bytes.find("\r\n\r\n") + 4; q.aux = t->id + 1; q.think = chance("pg.think", 0.6) ? pick_log("pg.thinkms", 1, 5000) * MS : 0;
				if (chance("pg.trickle", 0.6)) { q.trickle = pick_log("pg.trn", 1, 50000); q.gap = pick_log("pg.trus", 1, 100000) * US; if ((int64_t)q.bytes.size() / q.trickle > 200) q.trickle = q.bytes.size() / 200 + 1; }
				q.check = [p](Response &r) { p->answered = true; check_plan_response(p, r); stat_add("relayed", 1); };
				k->reqs.push_back(q);
			}
			k->on_sent = [](Client *k, Req &q) { T *t = ts[q.aux - 1]; t->t_sent = now(); t->rx0 = io[k->from].first; t->tx0 = io[k->from].second; };
			k->on_resp = [](Client *k, Req &q, Response &r) { T *t = ts[q.aux - 1]; t->t_done = now(); t->t_srv = last_tx[k->from]; t->rxe = io[k->from].first; t->txe = io[k->from].second; t->status = r.status; };
			k->on_end = [](Client *k) { nontrivial(k->got); for (auto *t : ts) if (t->k == k && t->t_done < 0) t->aborted = true; if (k->end == Client::DONE || k->end == Client::ABORTED || (k->got && k->saw_close)) return; violation("P27,P02,P05", "conn-broken", "%s: connection ended with state %d", k->desc().c_str(), (int)k->end); };
			if (f && chance("pg.abort", 0.12)) { k->abort_at = pick_log("pg.abat", 1, 20000) * MS; k->abort_rst = chance("pg.abrst", 0.5); vtime d = k->abort_at; (void)d; for (auto *t : ts) if (t->k == k) t->p->client_gave_up = false; }
			track(k); after((vtime)(span * (decide("pg.st", 1000) / 1000.0)), [k]() { k->start(listen_addr); });
		}
		int nq = 1 + decide("pg.nq", 4);
		for (int i = 0; i < nq; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P27,P02"; int n = 1 + decide("pg.qn", 30); int focus = chance("pg.focus", 0.5) ? (int)decide("pg.fo", ts.size()) : -1;
			for (int j = 0; j < n; ++j) {
				Req q; T *t = focus >= 0 ? ts[focus] : chance("pg.unk", 0.05) ? nullptr : ts[decide("pg.t", ts.size())]; q.name = "/progress"; std::string cb = form == 2 && chance("pg.cb", 0.5) ? (decide("pg.cbbad", 2) ? "my.call_1" : "x<b>") : "";
				q.bytes = req("GET", "/progress?X-Progress-Id=" + (t ? t->name : "nobody") + (cb.empty() ? "" : "&X-Progress-Callback=" + std::string(cb == "x<b>" ? "x%3Cb%3E<" : cb)), "Host: h\r\n"); q.think = chance("pg.qthink", 0.8) ? pick_log("pg.qthinkms", 1, std::max<int64_t>(2, (span / MS + 5000) / n * 3)) * MS : 0;
				auto sent = std::make_shared<vtime>(0); q.aux = (int64_t)(intptr_t)sent.get();
				q.check = [t, sent, form, cb](Response &r) { check(t, r, *sent, form == 3 ? 0 : form, cb); };
				k->reqs.push_back(q);
			}
			k->on_sent = [](Client *, Req &q) { *(vtime *)(intptr_t)q.aux = now(); for (auto *t : ts) if (t->seen_at < 0 && t->p->seen) t->seen_at = now() - 1; };
			k->on_end = [](Client *k) { if (k->end == Client::DONE || (k->got && k->saw_close)) return; violation("P27,P02", "conn-broken", "%s: query connection ended with state %d", k->desc().c_str(), (int)k->end); };
			if (f && chance("pg.qabort", 0.1)) { k->abort_at = pick_log("pg.abat", 1, 20000) * MS; k->abort_rst = chance("pg.abrst", 0.5); k->on_end = nullptr; }
			track(k); after((vtime)(span * (decide("pg.st", 1000) / 1000.0)), [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P27,P10,P02"; run_to_end(o);
	});
}
static ScenarioReg r1("progress", progress_setup);
