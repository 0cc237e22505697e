// TLS listeners (mod_openssl, mod_gnutls): HTTP over TLS behaves like HTTP over TCP, and a broken TLS peer only hurts itself.
// The client side is libgnutls over memory buffers.
#include "backend.h"
#include "tlscert.h"
#include "tlsclient.h"
#include <algorithm>
using namespace sim;
namespace {
std::string addr = "127.0.0.1:8443"; bool is_openssl;
struct Raw : Peer { // not TLS at all, or cut off
	std::string what; bool over = false; Client *k;
	void on_connect() override { if (!what.empty()) s->send(what); }
	void on_data(const char *, size_t) override {}
	void on_refused(int) override { end(); }
	void on_eof() override { if (!s->closed) s->close(); end(); }
	void on_reset() override { end(); }
	void end() { if (over) return; over = true; }
};
std::vector<Raw *> raws;
std::string be16(size_t n) { return std::string(1, (char)(n >> 8)) + (char)n; }
// a client hello with an arbitrary server name list and other extensions; lengths are mostly right, and the records are split anywhere
std::string odd_hello() {
	auto len = [](size_t n) -> size_t { return chance("h.len", 0.1) ? (size_t)decide("h.wrong", 2 * n + 3) : n; };
	std::string ext; int ne = decide("h.ne", 4);
	for (int i = 0; i < ne; ++i) {
		std::string e; bool sni = chance("h.sni", 0.7);
		if (sni) { int n = decide("h.names", 4); for (int j = 0; j < n; ++j) { std::string h = content(9000 + decide("h.name", 50), decide("h.nlen", 20)); e += std::string(1, (char)(chance("h.type", 0.3) ? decide("h.typen", 4) : 0)) + be16(len(h.size())) + h; } e = be16(len(e.size())) + e; if (chance("h.trail", 0.2)) e += content(3, 1 + decide("h.trailn", 5)); }
		else e = content(20 + i, decide("h.elen", 40));
		ext += be16(sni ? 0 : decide("h.etype", 60)) + be16(len(e.size())) + e;
	}
	std::string b = "\x03\x03" + content(77, 32), sid = content(78, decide("h.sid", 33)); b += std::string(1, (char)sid.size()) + sid; std::string ci = std::string("\x13\x01\xc0\x2b\xc0\x2f", 2 * (1 + decide("h.ciph", 3))); b += be16(len(ci.size())) + ci; b += std::string("\x01\x00", 2);
	if (!ext.empty() || chance("h.noext", 0.5)) b += be16(len(ext.size())) + ext;
	size_t hl = len(b.size()); std::string hs = std::string("\x01\x00", 2) + be16(hl) + b, out; size_t o = 0;
	while (o < hs.size()) { size_t n = chance("h.split", 0.3) ? 1 + decide("h.at", 30) : hs.size() - o; n = std::min(n, hs.size() - o); out += std::string("\x16\x03\x01", 3) + be16(n) + hs.substr(o, n); o += n; }
	return out;
}
}
static void tls_setup() {
	more_listen.push_back(addr); ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); is_openssl = decide("t.lib", 2); std::string mod = is_openssl ? "openssl" : "gnutls";
	c.modules = {"mod_" + mod, "mod_proxy"}; vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n"); vfs_put("/vfs/server.pem", decide("t.rsa", 4) ? pem_ec : pem_rsa); add_backend(B_PROXY, "127.0.0.1:9001");
	int nf = 1 + decide("t.nf", 4); std::vector<size_t> sz; for (int i = 0; i < nf; ++i) { sz.push_back(pick_log("t.size", 0, chance("t.bigf", 0.2) ? 2000000 : 100000)); vfs_put(strf("/vfs/www/f%d", i), content(700 + i, sz[i])); }
	std::string opt; if (!is_openssl) { if (decide("t.db", 2)) opt += ", \"session-db-size\" => " + strf("%d", (int)decide("t.dbn", 20)); } else if (chance("t.opts", 0.2)) opt += ", \"options\" => [\"NO_TICKET\"]";
	c.setup += mod + " [\"listen\" => \"127.0.0.1:8443\", \"pemfile\" => \"/vfs/server.pem\"" + opt + "];\n";
	bool nobuf = chance("t.nobuf", 0.3);
	c.actions = std::string("keepalive.timeout 300;\n") + (nobuf ? "buffer_request_body false;\n" : "") + "docroot \"/vfs/www\";\nif req.path =^ \"/p/\" { proxy \"127.0.0.1:9001\"; } else if req.path == \"/scheme\" { respond 200 => \"%{req.scheme}\"; } else { static; }\n"; write_config(c);
	when_listening([f, nf, sz, nobuf]() {
		gnutls_certificate_allocate_credentials(&cred); int nc = 1 + decide("t.nc", 5); vtime span = pick_log("t.span", 1, 3000) * MS;
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P21,P02"; k->depth = 1 + weighted("t.depth", {4, 1, 1});
			if (chance("t.slowrd", 0.2)) { k->pause_every = pick_log("t.pe", 1000, 100000); k->pause_for = pick_log("t.pf", 1, 2000) * MS; }
			Tls *t = new Tls; t->k = k; k->connector = [t](const std::string &a) { t->open(a); }; t->nobye = chance("t.nobye", 0.3); if (chance("t.chunk", 0.4)) t->chunk = 1 + pick_log("t.chunkn", 0, 16000); t->upd = chance("t.doupd", 0.2) ? 3 : 0;
			int nr = 1 + decide("t.nr", 5); size_t total = 0;
			for (int j = 0; j < nr; ++j) {
				Req q; int w = weighted("t.what", {5, 5, 1});
				if (w == 0) { int x = decide("t.f", nf); bool head = chance("t.head", 0.1); q.head = head; q.name = strf("/f%d", x); q.bytes = req(head ? "HEAD" : "GET", q.name, "Host: h.example\r\n"); size_t n = sz[x];
					q.check = [x, n, head](Response &r) { if (r.status != 200 || (!head && r.body != content(700 + x, n))) violation("P21,P01", "content", "/f%d over TLS: status %d, %zu of %zu bytes%s", x, r.status, r.body.size(), n, r.body.size() == n ? ", wrong content" : ""); stat_add("static", 1); }; }
				else if (w == 2) { q.name = "/scheme"; q.bytes = req("GET", q.name, "Host: h.example\r\n"); q.check = [](Response &r) { if (r.status != 200 || r.body != "https") violation("P21", "scheme", "scheme of a request over TLS is '%s'", r.body.c_str()); }; }
				else { Plan *p = rand_plan(B_PROXY, false, chance("t.big", 0.15) ? 1500000 : 150000); if (nobuf) p->chunked = false; q.head = p->head; q.tag = p->id; q.name = strf("plan %d", p->id); q.bytes = plan_request(p); if (p->has_body && chance("t.expect", 0.1)) { size_t e = q.bytes.find("\r\n\r\n"); q.bytes.insert(e, "\r\nExpect: 100-continue"); }
					q.check = [p](Response &r) { p->answered = true; check_plan_response(p, r); stat_add("relayed", 1); }; }
				q.think = chance("t.think", 0.3) ? pick_log("t.thinkms", 1, 3000) * MS : 0;
				if (chance("t.trickle", 0.3)) { q.trickle = pick_log("t.trn", 1, 50000); q.gap = pick_log("t.trus", 1, 30000) * US; if ((int64_t)q.bytes.size() / q.trickle > 100) q.trickle = q.bytes.size() / 100 + 1; }
				total += q.bytes.size(); k->reqs.push_back(q);
			}
			if (t->chunk && total / t->chunk > 300) t->chunk = total / 300 + 1;
			if (f && chance("t.corrupt", 0.1)) { if (chance("t.corhs", 0.3)) t->corrupt = decide("t.corat", 700); else t->corrupt_rel = pick_log("t.correl", 0, total + total / 10 + 100); }
			else if (f && chance("t.hscut", 0.1)) { t->hs_cut = pick_log("t.cutat", 0, 1000); t->cut_rst = decide("t.cutrst", 2); }
			else if (f && chance("t.abort", 0.1)) { k->abort_at = pick_log("t.abat", 1, 10000) * MS; k->abort_rst = chance("t.abrst", 0.5); }
			else if (f && chance("t.abortrx", 0.05)) { k->abort_rx = pick_log("t.abrx", 1, 200000); k->abort_rst = chance("t.abrst", 0.5); }
			if (t->corrupt >= 0 || t->corrupt_rel >= 0) for (auto &q : k->reqs) q.giveup = 40 * SEC;
			k->on_resp = [t](Client *k, Req &q, Response &) { if (t->corrupted && q.aux2) violation("P21,P03", "corrupt-accepted", "%s: a request sent after a corrupted record was answered", k->desc().c_str()); if (k->all_answered()) t->keep(); };
			k->on_sent = [t](Client *, Req &q) { if (t->corrupted) q.aux2 = 1; };
			k->on_end = [t](Client *k) { stat_add("responses", k->got); nontrivial(k->got * 3 + t->hs); if (k->end == Client::DONE || k->end == Client::ABORTED || t->corrupted || (k->got && k->saw_close)) return; violation("P21,P02", "conn-broken", "%s: TLS connection ended with state %d", k->desc().c_str(), (int)k->end); };
			track(k); after(late_wave() + (vtime)(span * (decide("t.st", 1000) / 1000.0)), [k]() { k->start(addr); });
		}
		if (f) { int nraw = decide("t.nraw", 4);
			for (int i = 0; i < nraw; ++i) {
				Raw *r = new Raw; raws.push_back(r); int w = weighted("t.raww", {1, 1, 1, 1, 2}); std::string &x = r->what;
				if (w == 0) x = "GET / HTTP/1.1\r\nHost: h\r\n\r\n"; else if (w == 1) x = content(4000 + decide("t.rawc", 100), pick_log("t.rawn", 1, 50000));
				else if (w == 2) { int n = pick_log("t.rawl", 0, 20000); x = std::string("\x16\x03\x01", 3) + (char)(n >> 8) + (char)n + std::string("\x01", 1) + content(5, 200); } // a record of any announced length
				else if (w == 4) { x = odd_hello(); probe("odd_hello"); }
				LinkOpts lo = rand_link(); after((vtime)(span * (decide("t.st", 1000) / 1000.0)), [r, lo, i]() { net_connect(addr, r, strf("10.9.9.%d:4000", i + 1), lo); });
				vtime d = pick_log("t.rawend", 1, 60000) * MS; after(span + d, [r]() { if (r->over || !r->s) { r->over = true; return; } if (decide("t.rawrst", 2)) r->s->abort(); else r->s->close(); r->end(); });
			} }
		EndOpts o; o.live_prop = "P21,P10,P02"; o.extra_done = []() { for (auto *r : raws) if (!r->over) return false; return true; };
		o.on_idle = []() { stat_add("handshakes", handshakes); stat_add("resumed", resumed); stat_add("corrupted", bad); }; run_to_end(o);
	});
}
static ScenarioReg r1("tls", tls_setup);
