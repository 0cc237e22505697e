// mod_memcached: pipelined lookups and stores against a memcached actor with random reply segmentation, delays, protocol errors,
// connection losses and restarts; origin is static files or an HTTP backend.
#include "backend.h"
#include <algorithm>
extern "C" { char *g_compute_checksum_for_data(int, const unsigned char *, size_t); void g_free(void *); }
using namespace sim;
namespace {
const char *MC = "127.0.0.1:11211";
struct Res { std::string path, uri; bool stat; std::vector<std::string> v; std::string key; };
std::vector<Res *> rs; std::string prefix; bool with_query; int maxsize, ttl, flags, workers; bool mcf, stopping, noreorder;
std::map<std::string, Res *> by_key;
struct Val { std::string data; };
std::map<std::string, Val> store;
std::map<std::string, std::vector<std::pair<vtime, std::string>>> sent_vals;   // key -> when a lookup of it was received, value sent for it
std::map<std::string, int> get_n;
int n_value, n_hit, n_gone;
double frate;
ConnPolicy down = CP_OK; vtime down_until = -1;
std::string mutate(const std::string &k) {
	bool ok = k.size() && k.size() <= 250; for (unsigned char c : k) if (c <= 0x20 || c >= 0x7f) ok = false;
	if (ok) return k; Guard g; char *s = g_compute_checksum_for_data(1, (const unsigned char *)k.data(), k.size()); std::string r = s; g_free(s); return r;
}
struct Mc : Peer {
	std::string in, out; bool over = false, pumping = false, dead = false; int die = 0; static int open_now; static std::vector<Mc *> all; int id; vtime hold = 0; bool tainted = false;
	Mc() { ++open_now; id = all.size(); all.push_back(this); }
	void gone() { if (!over) { over = true; --open_now; } }
	void kill(int how) { if (over) return; tr("mc %d: server closes (%d)", id, how); if (how == 1) s->close(); else s->abort(); gone(); }
	void reply(const std::string &r) {
		out += r; if (chance("mc.hold", 0.15)) hold = std::max(hold, now() + pick_log("mc.holdms", 1, mcf ? 8000 : 800) * MS);
		if (!pumping) { pumping = true; pump(); }
	}
	void pump() {
		if (over) return;
		if (now() < hold) { at(hold, [this]() { pump(); }); return; }
		if (out.empty()) { pumping = false; if (die) kill(die); return; }
		size_t n = chance("mc.split", 0.4) ? pick_log("mc.piece", 1, std::min<size_t>(out.size(), 9000)) : out.size();
		if (n > out.size()) n = out.size();
		s->send(out.substr(0, n)); out.erase(0, n);
		if (out.empty() && !die) { pumping = false; return; }
		vtime d = pick_log("mc.gap", 0, 30000) * US; after(d, [this]() { pump(); });
	}
	// a faulty reply; true: nothing else is said on this connection
	bool fault_reply(const std::string &good, bool get, const std::string &key) {
		if (!mcf || !chance("mc.fault", frate)) return false;
		int k = decide("mc.kind", 13); static const char *nm[] = {"close", "rst", "cut_fin", "cut_rst", "ERROR", "SERVER_ERROR", "garbage", "longline", "badterm", "hugelen", "neglen", "wrongkey", "notstored"};
		probe((std::string("mc_") + nm[k]).c_str()); tr("mc %d: fault %s for %s", id, nm[k], key.substr(0, 40).c_str()); tainted = true; dead = true;
		switch (k) {
		case 0: die = 1; reply(""); break;
		case 1: die = 2; reply(""); break;
		case 2: case 3: die = k - 1; reply(good.substr(0, decide("mc.cut", good.size()))); break;
		case 4: reply("ERROR\r\n"); dead = chance("mc.after", 0.5); break;
		case 5: reply("SERVER_ERROR out of memory storing object\r\n"); dead = chance("mc.after", 0.5); break;
		case 6: { std::string g = content(decide("mc.g", 100000), 1 + decide("mc.gn", 3000)); reply(g); if (chance("mc.gc", 0.5)) reply("\r\nEND\r\n"); } break;
		case 7: reply(std::string(500 + decide("mc.ll", 9000), 'x')); die = 1; break;
		case 8: if (get) { std::string g = good; size_t e = g.rfind("\r\nEND"); if (e != std::string::npos) g.insert(e, "zz"); else g = "EMD\r\n"; reply(g); } else reply("STORED \r\n"); break;
		case 9: { static const char *l[] = {"9223372036854775807", "99999999999999999999999", "18446744073709551615", "2147483648", "18446744073709551614", "4294967295"}; reply(std::string("VALUE ") + key + " 0 " + l[decide("mc.hl", 6)] + "\r\nabc\r\nEND\r\n"); } break;
		case 10: { static const char *l[] = {"-1", "-2", "-3", "-4096", "-9223372036854775808"}; reply(std::string("VALUE ") + key + " 0 " + l[decide("mc.nl", 5)] + "\r\nabc\r\nEND\r\n"); } break;
		case 11: reply("VALUE other" + key + " 0 5\r\nWRONG\r\nEND\r\n"); dead = false; break;
		case 12: reply(get ? "END\r\n" : "NOT_STORED\r\n"); dead = false; break;
		}
		return true;
	}
	bool dying = false;
	void on_data(const char *p, size_t n) override {
		if (over) return;
		if (dead) { if (!dying) { dying = true; after(pick_log("mc.dead", 1, 8000) * MS, [this]() { kill(1); }); } return; }
		dispatch(p, n);
		if (dead && !over && !dying) { dying = true; after(pick_log("mc.dead", 1, 8000) * MS, [this]() { kill(1); }); }
	}
	void dispatch(const char *p, size_t n) {
		in.append(p, n);
		while (!over && !dead) {
			size_t e = in.find("\r\n"); if (e == std::string::npos) { if (in.size() > 2000) violation("P19", "protocol", "memcached received %zu bytes without a line end", in.size()); return; }
			std::string l = in.substr(0, e);
			if (!l.compare(0, 4, "get ")) {
				std::string key = l.substr(4); in.erase(0, e + 2);
				if (key.empty() || key.size() > 250 || key.find(' ') != std::string::npos) violation("P19", "bad-key", "lookup with invalid key '%s'", key.c_str());
				if (!by_key.count(key)) violation("P19", "bad-key", "lookup of key '%s' which belongs to no request", key.c_str());
				stat_add("lookups", 1); get_n[key]++;
				auto it = store.find(key); std::string r;
				if (it == store.end()) r = "END\r\n";
				else r = "VALUE " + key + strf(" %d %zu", flags, it->second.data.size()) + (chance("mc.cas", 0.1) ? " 12345" : "") + "\r\n" + it->second.data + "\r\nEND\r\n";
				tr("mc %d: get %s (%d)", id, key.substr(0, 40).c_str(), (int)(it != store.end()));
				if (it != store.end()) { sent_vals[key].push_back({now(), it->second.data}); }
				if (fault_reply(r, true, key)) continue;
				if (it != store.end()) ++n_value;
				reply(r);
			} else if (!l.compare(0, 4, "set ")) {
				char key[300]; unsigned long long fl, ex, by; int m = 0;
				if (sscanf(l.c_str(), "set %250s %llu %llu %llu%n", key, &fl, &ex, &by, &m) != 4 || (size_t)m != l.size()) violation("P19", "protocol", "bad command '%s'", l.c_str());
				if (in.size() < e + 2 + by + 2) return;
				std::string d = in.substr(e + 2, by); if (in.compare(e + 2 + by, 2, "\r\n")) violation("P19", "protocol", "data block of '%s' is not terminated", l.c_str());
				in.erase(0, e + 2 + by + 2);
				if ((int)fl != flags || (int)ex != ttl) violation("P19", "store-params", "stored with flags %llu ttl %llu, configured %d and %d", fl, ex, flags, ttl);
				if ((int)by > maxsize) violation("P19", "store-size", "stored %llu bytes, maxsize is %d", by, maxsize);
				auto it = by_key.find(key); if (it == by_key.end()) violation("P19", "bad-key", "store under key '%s' which belongs to no request", key);
				bool ok = false; for (auto &x : it->second->v) ok |= x == d;
				if (!ok) violation("P19,P06", "stored-wrong", "stored %zu bytes under '%.60s' that are no complete response body of it", d.size(), key);
				stat_add("stores", 1); tr("mc %d: set %s %d", id, key, (int)by);
				if (mcf && chance("mc.setfault", frate) && chance("mc.setlost", 0.5)) { probe("mc_set_lost"); tainted = dead = true; die = 1 + decide("mc.sl", 2); reply(""); return; }
				if (fault_reply("STORED\r\n", false, key)) continue;
				store[key].data = d; reply("STORED\r\n");
			} else violation("P19", "protocol", "unknown command '%.60s'", l.c_str());
		}
	}
	void on_eof() override { if (!tainted && !stopping && !over) { ++n_gone; if (!mcf) violation("P19", "connection-dropped", "the connection to a healthy memcached server was closed"); } s->close(); gone(); }
	void on_reset() override { if (!tainted && !stopping && !over && !mcf) violation("P19", "connection-dropped", "the connection to a healthy memcached server was reset"); gone(); }
};
int Mc::open_now = 0; std::vector<Mc *> Mc::all;
BackendListener bl;
struct Ask { Res *r; int v = -1; Plan *p = nullptr; vtime sent = 0; int want = -1; int64_t ra = -1, rb = -1; };   // want: 1 must be a hit
bool eio_seen() { return faults[fault_id("disk_read_eio")].fired > 0; }
bool fails(const Ask &q) { return q.p && q.p->fault != BF_NONE || q.r->stat && eio_seen(); }
std::string head40(const std::string &s) { return s.size() > 40 ? s.substr(0, 40) + "..." : s; }
void judge(Ask &q, Response &r, bool head) {
	std::string w = head40(q.r->path), xc = r.get("X-Cache"); if (q.p) q.p->answered = true;
	if (xc == "hit") {
		++n_hit; stat_add("hits", 1);
		if (r.status != 200) violation("P19,P02", "status", "%s: status %d for a hit", w.c_str(), r.status);
		bool any = false; for (auto &s : sent_vals[q.r->key]) if (s.first >= q.sent && (head || s.second == r.body)) any = true;
		if (!any) violation("P19,P06", "wrong-value", "%s: response of %zu bytes from the cache is not a value sent for key '%.60s' during the request", w.c_str(), r.body.size(), q.r->key.c_str());
		return;
	}
	if (q.want == 1) violation("P19", "no-recovery", "%s: key '%.60s' is stored and the server healthy, but the request was not answered from memcached (status %d)", w.c_str(), q.r->key.c_str(), r.status);
	if (xc != "miss") { if (r.status < 500 || !fails(q)) violation("P19,P02", "status", "%s: answered %d although the origin was fine", w.c_str(), r.status); return; }
	stat_add("misses", 1);
	if (q.p && !r.has("X-Plan-Id")) { if (r.status < 500 || !fails(q)) violation("P19,P05,P07", "status", "%s: answered %d although the backend was fine", w.c_str(), r.status); return; }
	int ws = q.p ? q.p->status : 200; const std::string &full = q.p ? q.p->rbody : q.r->v[0];
	if (q.ra >= 0) {
		int64_t n = full.size(), e = std::min(q.rb, n - 1); ws = q.ra < n ? 206 : 416;
		if (r.status != ws || (ws == 206 && (r.get("Content-Range") != strf("bytes %lld-%lld/%lld", (long long)q.ra, (long long)e, (long long)n) || (!head && full.compare(q.ra, e - q.ra + 1, r.body))))) violation("P19,P16,P01", "range", "%s: bytes=%lld-%lld of %lld answered %d, Content-Range '%s', %zu bytes", w.c_str(), (long long)q.ra, (long long)q.rb, (long long)n, r.status, r.get("Content-Range").c_str(), r.body.size());
		stat_add("ranges", 1); return;
	}
	if (r.status == 500 && fails(q) && !q.p) return;
	if (r.status != ws) violation("P19,P01,P05", "status", "%s: status %d instead of %d", w.c_str(), r.status, ws);
	if (q.p && r.get("X-Plan-Id") != strf("%d", q.p->id)) violation("P19,P06", "cross-talk", "%s: response of another request (plan %s)", w.c_str(), r.get("X-Plan-Id").c_str());
	if (head) return;
	const std::string &want = full;
	if (r.body != want) violation("P19,P01,P05,P06", "wrong-miss", "%s: body of %zu bytes differs from the %zu bytes of the origin", w.c_str(), r.body.size(), want.size());
}
Client *final_c; bool final_done; int stage;
Req mkreq(Res *r, bool f, int want, bool head) {
	Ask *q = new Ask; Req x; q->r = r; q->want = want; std::string h = "Host: h\r\n"; x.head = head; x.aux = (int64_t)q; x.name = (head ? "HEAD " : "") + head40(r->path);
	if (!r->stat) {
		Plan *p = q->p = rand_plan(B_PROXY, f, 10); q->v = decide("c.v", r->v.size());
		p->path = r->uri; p->query.clear(); p->method = head ? "HEAD" : "GET"; p->head = head; p->has_body = false; p->body.clear(); p->chunked = false; p->interim = false; p->status = 200; p->nobody = head;
		p->rbody = head ? "" : r->v[q->v]; if (head) p->framing = Plan::CLOSE; if (p->framing == Plan::CHUNKED) p->http10 = false;
		if (p->fault == BF_HANG) p->fault = BF_TRUNC_FIN; if (p->framing == Plan::CLOSE) p->fault = BF_NONE;
		if (want < 0 && !head && chance("mc.status", 0.12)) { static const int st[] = {201, 203, 206, 404, 500, 301}; p->status = st[decide("mc.st", 6)]; p->rbody = content(4900 + p->id, 1 + decide("mc.stsz", 3000)); if (p->status == 206) p->rh.push_back({"Content-Range", "bytes 0-9/10"}); }
		build_wire(p); if (p->piece > 0 && p->wire.size() / p->piece > 200) p->piece = p->wire.size() / 200 + 1;
		if (p->fault == BF_TRUNC_FIN || p->fault == BF_TRUNC_RST) p->cut = decide("c.cutend", 3) == 0 ? p->wire.size() - 1 - decide("c.cut1", std::min<size_t>(p->wire.size() - 1, 40)) : decide("c.cut", p->wire.size());
		h += strf("X-Plan: %d\r\n", p->id); for (auto &y : p->headers) h += y.k + ": " + y.v + "\r\n"; x.tag = p->id;
	}
	else if (want < 0 && !final_c && chance("mc.range", 0.2)) { int64_t n = r->v[0].size() + 1; q->ra = decide("mc.ra", n); q->rb = pick("mc.rb", q->ra, n + 10); h += strf("Range: bytes=%lld-%lld\r\n", (long long)q->ra, (long long)q->rb); }
	x.bytes = req(head ? "HEAD" : "GET", r->uri, h); x.check = [q, head](Response &rsp) { judge(*q, rsp, head); };
	return x;
}
void hook(Client *k) {
	k->on_sent = [](Client *, Req &r) { ((Ask *)r.aux)->sent = now(); };
	k->on_end = [](Client *k) {
		stat_add("responses", k->got); nontrivial(k->got * 3 + k->depth);
		if (k->end == Client::DONE || k->end == Client::ABORTED) return;
		size_t i = k->got; if (i >= k->reqs.size()) return; if (i > 0 && k->saw_close) return;
		if (i > 0 && fails(*(Ask *)k->reqs[i - 1].aux)) return;
		for (size_t j = i; j < k->next && j < k->reqs.size(); ++j) if (fails(*(Ask *)k->reqs[j].aux)) { probe("visible_failure"); return; }
		violation("P19,P02,P05", "conn-broken", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end);
	};
}
}
static void mc_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); workers = c.workers;
	c.modules = {"mod_memcached", "mod_proxy"}; vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n");
	mcf = f && chance("mc.on", 0.8); static const double fr[] = {0, 0.03, 0.15, 0.5}; frate = fr[decide("mc.rate", 4)];
	if (f) { static const double r[] = {0, 0, 0.01, 0.1}; set_fault("disk_short_read", r[decide("knob.dshort", 4)]); set_fault("disk_eintr", r[decide("knob.deintr", 3)]); set_fault("sendfile_einval", r[decide("knob.sfinval", 4)]); }
	add_backend(B_PROXY, "127.0.0.1:9001");
	prefix = decide("mc.prefix", 2) ? "pre:fix_" : ""; maxsize = chance("mc.max", 0.6) ? pick_log("mc.maxsz", 1, 200000) : 65536; ttl = decide("mc.ttl", 3) * 1000; flags = decide("mc.flags", 2) * 77;
	std::string opt = std::string("\"server\" => \"") + MC + "\""; if (prefix.size()) opt += ", \"key\" => \"" + prefix + "%{req.path}\"";
	std::string sopt = opt + strf(", \"ttl\" => %d, \"maxsize\" => %d", ttl, maxsize); if (flags) sopt += strf(", \"flags\" => %d", flags);
	bool st = chance("mc.store", 0.8);
	c.actions = "keepalive.timeout 300;\ndocroot \"/vfs/www\";\n"; if (chance("knob.statsync", 0.3)) c.actions = "stat.async false;\n" + c.actions;
	c.actions += "if req.path == \"/probe\" { static; } else { memcached.lookup ([" + opt + "], { header.add \"X-Cache\" => \"hit\"; }, { if req.path =^ \"/p/\" { proxy \"127.0.0.1:9001\"; } else { static; } header.add \"X-Cache\" => \"miss\"; " + (st ? "memcached.store [" + sopt + "]; " : "") + "}); }\n";
	int n = 1 + decide("mc.nres", 5);
	for (int i = 0; i < n + 2; ++i) {
		Res *r = new Res; r->stat = i >= n || chance("mc.stat", 0.5); r->path = (r->stat ? "/" : "/p/") + strf("f%d", i); r->uri = r->path;
		if (i < n) switch (weighted("mc.name", {5, 1, 1, 1})) {
			case 1: { std::string l(r->stat ? 240 : 245 + decide("mc.nl", 20), 'n'); r->path += l; r->uri += l; } break;
			case 2: r->path += " x"; r->uri += "%20x"; break;
			case 3: r->path += "\xc3\xa9"; r->uri += "%C3%A9"; break;
		}
		int nv = r->stat ? 1 : 1 + decide("mc.nv", 3);
		for (int v = 0; v < nv; ++v) {
			size_t sz = i == n + 1 ? std::min(maxsize, 3000) : chance("mc.edge", 0.3) ? 4088 + decide("mc.esz", 16) : pick_log("mc.size", 0, 120000);
			std::string d = content(5000 + i * 16 + v, sz);
			if (sz > 20 && chance("mc.tricky", 0.3)) { static const char *t[] = {"\r\nEND\r\n", "END\r\n", "\r\n", "VALUE f 0 0\r\n\r\nEND\r\n", "\r"}; std::string x = t[decide("mc.tr", 5)]; if (x.size() < sz) { size_t o = decide("mc.to", 3); d.replace(o == 0 ? 0 : o == 1 ? sz - x.size() : decide("mc.tp", sz - x.size()), x.size(), x); } }
			r->v.push_back(d);
		}
		r->key = mutate(prefix + r->path); if (by_key.count(r->key)) continue; by_key[r->key] = r;
		if (r->stat) vfs_put("/vfs/www" + r->path, r->v[0]);
		if (i == n || (i < n && chance("mc.preset", 0.4))) { store[r->key].data = content(6000 + i, chance("mc.zero", 0.2) ? 0 : chance("mc.edge2", 0.2) ? 4088 + decide("mc.esz2", 16) : pick_log("mc.psz", 0, 100000)); if (chance("mc.ptr", 0.2)) store[r->key].data += "\r\nEND"; }
		rs.push_back(r);
	}
	static std::string final_preset; final_preset = store[rs[rs.size() - 2]->key].data;
	bl.policy = []() { if (now() < down_until) return down; if (mcf && chance("mc.conn", frate / 2)) { static const ConnPolicy p[] = {CP_REFUSE, CP_REFUSE_NOW, CP_UNREACH, CP_OK_NOW}; probe("mc_connect_fail"); return p[decide("mc.cp", 4)]; } return chance("mc.now", 0.2) ? CP_OK_NOW : CP_OK; };
	bl.accept = []() -> Peer * { return new Mc; }; bl.link = []() { LinkOpts l = rand_link(); l.bw = 0; return l; }; bl.connect_delay = pick_log("mc.cdelay", 1, 200000) * US;
	net_backend(MC, &bl);
	write_config(c);
	when_listening([f, st]() {
		if (f && chance("mc.eio", 0.12)) set_fault("disk_read_eio", chance("mc.eio2", 0.5) ? 0.03 : 0.2);
		int nc = 1 + decide("mc.nc", 6);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P19,P02,P05"; k->depth = 1 + weighted("mc.depth", {5, 1, 1});
			if (chance("mc.slow", 0.2)) { k->pause_every = pick_log("mc.pe", 500, 60000); k->pause_for = pick_log("mc.pf", 1, 1500) * MS; }
			int nr = 2 + decide("mc.reqs", 9);
			for (int j = 0; j < nr; ++j) { Req r = mkreq(rs[decide("mc.r", rs.size() - 2)], f, -1, chance("mc.head", 0.1)); r.think = chance("mc.think", 0.4) ? pick_log("mc.thinkms", 1, 2500) * MS : 0; k->reqs.push_back(r); }
			if (f && chance("mc.abort", 0.25)) { if (decide("mc.abhow", 2)) k->abort_rx = pick_log("mc.abrx", 1, 200000); else k->abort_at = pick_log("mc.abat", 1, 6000) * MS; k->abort_rst = chance("mc.abrst", 0.5); }
			hook(k); track(k); after(pick_log("mc.start", 0, 2500) * MS, [k]() { k->start(listen_addr); });
		}
		int nev = mcf ? decide("mc.nev", 4) : 0;
		for (int i = 0; i < nev; ++i) after(pick_log("mc.evat", 1, 8000) * MS, []() {
			if (stage) return;
			switch (decide("mc.ev", 5)) {
			case 0: probe("mc_restart"); for (size_t i = 0; i < Mc::all.size(); ++i) { Mc *m = Mc::all[i]; if (!m->over) { m->tainted = true; m->kill(1 + decide("mc.how", 2)); } } if (decide("mc.wipe", 2)) store.clear(); { static const ConnPolicy p[] = {CP_REFUSE, CP_REFUSE_NOW, CP_OK, CP_UNREACH}; down = p[decide("mc.dp", 4)]; down_until = now() + pick_log("mc.dms", 1, 5000) * MS; } break;
			case 1: { std::vector<Mc *> o; for (auto *m : Mc::all) if (!m->over) o.push_back(m); if (o.size()) { Mc *m = o[decide("mc.m", o.size())]; m->tainted = true; probe("mc_idle_close"); m->kill(1 + decide("mc.how", 2)); } } break;
			case 2: { std::vector<Mc *> o; for (auto *m : Mc::all) if (!m->over && !m->dead) o.push_back(m); if (o.size()) { Mc *m = o[decide("mc.m", o.size())]; m->tainted = true; probe("mc_unsolicited"); m->reply(decide("mc.uns", 2) ? "ERROR\r\n" : "x"); m->dead = true; } } break;
			case 3: if (store.size()) { auto it = store.begin(); std::advance(it, decide("mc.ex", store.size())); store.erase(it); probe("mc_expired"); } break;
			case 4: { auto it = by_key.begin(); std::advance(it, decide("mc.nk", by_key.size())); store[it->first].data = content(6500 + decide("mc.nc2", 400), pick_log("mc.psz", 0, 60000)); probe("mc_external_set"); } break;
			}
		});
		EndOpts o; o.live_prop = "P19,P10,P02,P05"; o.fd_slack = 2 * workers;
		o.extra_done = [st]() {
			if (stage == 0) {
				stage = 1; clear_faults(); if (!mcf && n_gone) violation("P19", "connection-dropped", "healthy connection dropped");
				mcf = false; down_until = -1; for (size_t i = 0; i < Mc::all.size(); ++i) { Mc *m = Mc::all[i]; if (!m->over && (m->dead || m->tainted)) m->kill(1); }
				Res *pre = rs[rs.size() - 2], *fresh = rs[rs.size() - 1]; store[pre->key].data = final_preset; store.erase(fresh->key);
				for (auto *m : Mc::all) m->tainted = true;      // connections the server closed are noticed only now
				Client *k = final_c = new_client(); k->malformed_prop = "P19,P02"; bool fits = (int)fresh->v[0].size() <= maxsize;
				// one connection: one worker. The first lookups may find broken or missing connections, and reconnects are limited to one per second
				for (int i = 0; i < 4; ++i) { Req r = mkreq(pre, false, -1, false); r.think = 3 * SEC; k->reqs.push_back(r); }
				for (int i = 0; i < 3; ++i) { Req r = mkreq(pre, false, 1, false); r.think = 200 * MS; k->reqs.push_back(r); }
				for (int i = 0; i < 4; ++i) { Req r = mkreq(fresh, false, i == 3 && st && fits ? 1 : -1, false); r.think = 3 * SEC; k->reqs.push_back(r); }
				hook(k); auto e = k->on_end; k->on_end = [e](Client *c) { final_done = true; e(c); };
				after(15 * SEC, [k]() { for (auto *m : Mc::all) m->tainted = true; k->start(listen_addr); });
			}
			return final_done;
		};
		o.on_idle = []() { stopping = true; };
		o.idle_cond = []() { if (BackConn::open_now) return strf("%d backend connection(s) still open although no request is left", BackConn::open_now); return Mc::open_now > 2 * workers ? strf("%d connections to memcached open, %d worker(s)", Mc::open_now, workers) : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("memcached", mc_setup);
