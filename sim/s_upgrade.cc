// Protocol upgrade (101): after the switch the server is a transparent bidirectional byte pipe between client and backend.
#include "backend.h"
#include <algorithm>
using namespace sim;
namespace {
struct UB;
struct Sess {
	int id; BKind kind; bool accept = true; std::string body; int refuse = 403;
	std::string up, down;                    // client -> backend, backend -> client
	size_t up_sent = 0, up_got = 0, down_sent = 0, down_got = 0; int64_t up_piece = 0, down_piece = 0; vtime up_gap = 0, down_gap = 0;
	size_t early = 0;                        // client bytes sent together with the request
	size_t glued = 0;                        // backend bytes sent together with the response head
	int closer = 0;                          // 0 backend when all is done, 1 backend when all is sent, 2 client when all is done, 3 client abruptly, 4 backend abruptly
	vtime abrupt_at = 0; bool rst = false; vtime delay = 0; bool pingpong = false; vtime idle = 0;
	bool switched = false, b_switched = false, c_over = false, b_over = false, b_closed_by_us = false, c_closed_by_us = false; vtime t_over = -1; Client *c = nullptr; UB *b = nullptr; bool req_sent = false;
	bool all_done() const { return up_got == up.size() && down_got == down.size(); }
};
std::map<int, Sess *> ss; int open_b; bool hurt;      // hurt: a fault hit file descriptors so that backend connections may fail
void progress_check(Sess *s);
void up_step(Sess *s); void down_step(Sess *s);
std::string frec(int type, const std::string &c, int pad) { std::string r; r += (char)1; r += (char)type; r += (char)0; r += (char)1; r += (char)(c.size() >> 8); r += (char)(c.size() & 255); r += (char)pad; r += (char)0; return r + c + std::string(pad, 'P'); }
struct UB : Peer {
	BKind kind; std::string in; Sess *ss_ = nullptr; bool over = false, head = false, params = false, stdin_end = false, answered = false; size_t body = 0; std::string par;
	UB(BKind k) : kind(k) { ++open_b; }
	void out(const std::string &x) { if (over || s->closed) return; if (kind != B_FCGI) { s->send(x); return; } std::string o; size_t i = 0; while (i < x.size()) { size_t n = std::min<size_t>(x.size() - i, 1 + pick_log("u.rec", 0, 60000)); o += frec(6, x.substr(i, n), decide("u.pad", 9)); i += n; } s->send(o); }
	void gone() { if (over) return; over = true; --open_b; if (ss_) { ss_->b_over = true; if (ss_->t_over < 0) ss_->t_over = now(); } }
	void on_eof() override { tr("backend eof sess %d", ss_ ? ss_->id : -1); if (!s->closed) s->close(); ended(); }
	void on_reset() override { tr("backend reset sess %d", ss_ ? ss_->id : -1); ended(); }
	void ended() {
		bool was = over; gone(); if (was || !ss_ || !ss_->b_switched) return;
		if (!ss_->c_over && !ss_->b_closed_by_us) { Sess *x = ss_; after(30 * SEC + stalled_total, [x]() { if (!x->c_over) violation("P23,P09,P10", "half-dead", "session %d: the server dropped the backend connection but keeps the client connection open", x->id); }); if (!x_ok()) violation("P23,P05,P04", "dropped", "session %d: the server closed the backend connection of an upgraded connection although the client is still there (up %zu of %zu, down %zu of %zu)", ss_->id, ss_->up_got, ss_->up.size(), ss_->down_got, ss_->down.size()); }
	}
	bool x_ok() { return ss_->c_closed_by_us; }
	void got_head(const std::string &sid) {
		auto it = ss.find(atoi(sid.c_str())); if (it == ss.end()) violation("P23,P06", "unknown", "backend got a request with session '%s'", sid.c_str());
		head = true; ss_ = it->second; if (ss_->b) violation("P23,P06", "twice", "session %d reached a backend twice", ss_->id);
		ss_->b = this; tr("backend has sess %d", ss_->id);
	}
	void maybe_answer() { if (answered || body < ss_->body.size() || (kind == B_FCGI && !stdin_end)) return; answered = true; after(ss_->delay, [this]() { answer(); }); }
	void answer() {
		if (over || s->closed) return;
		Sess *x = ss_; std::string first = kind == B_PROXY ? "HTTP/1.1 " : "Status: ";
		if (!x->accept) {
			std::string b = content(x->id + 77, 1000 + x->id); out(first + strf("%d No\r\nX-Sess: %d\r\nContent-Length: %zu\r\n\r\n", x->refuse, x->id, b.size()) + b);
			if (kind == B_FCGI) { s->send(frec(6, "", 0) + frec(3, std::string(8, 0), 0)); } else { s->close(); gone(); } return;
		}
		x->b_switched = true; tr("backend switches sess %d", x->id);
		std::string h = first + strf("101 Switching Protocols\r\nUpgrade: testproto\r\nConnection: %s\r\nX-Sess: %d\r\n\r\n", decide("u.conn", 2) ? "upgrade" : "Upgrade", x->id);
		size_t g = std::min(x->glued, x->down.size()); out(h + x->down.substr(0, g)); x->down_sent = g;
		after(x->down_gap, [x]() { down_step(x); });
		if (x->closer == 4) after(x->abrupt_at, [this, x]() { if (over || s->closed) return; tr("backend aborts sess %d", x->id); x->b_closed_by_us = true; if (x->rst) s->abort(); else s->close(); gone(); progress_check(x); });
	}
	void up_data(const char *d, size_t n) {
		Sess *x = ss_;
		if (!x->b_switched) { violation("P23,P04", "early-data", "session %d: %zu bytes reached the backend before it answered", x->id, n); }
		if (x->up_got + n > x->up_sent || memcmp(x->up.data() + x->up_got, d, n)) violation("P23,P04,P06", "up-bytes", "session %d: bytes [%zu,%zu) sent by the client arrived changed at the backend (client sent %zu so far)", x->id, x->up_got, x->up_got + n, x->up_sent);
		x->up_got += n; stat_add("up_bytes", n); progress_check(x); if (x->pingpong) down_step(x);
	}
	void on_data(const char *d, size_t n) override {
		tr("backend rx %llu", (unsigned long long)n); in.append(d, n);
		if (kind == B_FCGI) {
			while (in.size() >= 8 && !over) {
				const uint8_t *h = (const uint8_t *)in.data(); size_t cl = h[4] * 256 + h[5], pl = h[6]; int type = h[1]; if (h[0] != 1) violation("P23,P04", "fcgi", "record version %d", h[0]);
				if (in.size() < 8 + cl + pl) return; std::string c = in.substr(8, cl); in.erase(0, 8 + cl + pl);
				if (type == 4) { if (cl) par += c; else { size_t q = par.find("HTTP_X_SESS"); got_head(q == std::string::npos ? "" : par.substr(q + 11)); } }
				else if (type == 5) { if (!stdin_end) { if (!cl) stdin_end = true; else req_body(c.data(), cl); if (ss_) maybe_answer(); } else if (cl) up_data(c.data(), cl); }
				else if (type != 1 && type != 2) violation("P23,P04", "fcgi", "record type %d", type);
			}
			return;
		}
		if (!head) {
			size_t body_at;
			if (kind == B_PROXY) { size_t e = in.find("\r\n\r\n"); if (e == std::string::npos) return; size_t q = in.find("X-Sess: "); if (in.find("Upgrade: testproto\r\n") > e || in.find("Connection: Upgrade\r\n") > e) violation("P23,P04", "upgrade-header", "the backend got an upgrade request without its Upgrade and Connection headers"); got_head(q == std::string::npos ? "" : in.substr(q + 8)); body_at = e + 4; }
			else { size_t c = in.find(':'); if (c == std::string::npos) return; size_t len = atoi(in.c_str()); if (in.size() < c + len + 2) return; std::string k = "HTTP_X_SESS"; k += '\0'; size_t q = in.find(k); got_head(q == std::string::npos ? "" : in.substr(q + k.size())); body_at = c + len + 2; }
			in.erase(0, body_at);
		}
		std::string x; x.swap(in); size_t t = std::min(x.size(), ss_->body.size() - body); if (t) req_body(x.data(), t); maybe_answer(); if (x.size() > t) up_data(x.data() + t, x.size() - t);
	}
	void req_body(const char *d, size_t n) { if (body + n > ss_->body.size() || memcmp(ss_->body.data() + body, d, n)) violation("P23,P04", "body", "session %d: request body changed", ss_->id); body += n; }
};
void up_step(Sess *s) {
	if (s->c_over || s->up_sent >= s->up.size()) { progress_check(s); return; }
	if (s->pingpong && s->up_sent > s->down_got) return;           // wait for the other side
	size_t n = s->up_piece > 0 ? std::min<size_t>(s->up_piece, s->up.size() - s->up_sent) : s->up.size() - s->up_sent;
	std::string x = s->up.substr(s->up_sent, n); s->up_sent += n; tr("client sends %llu sess %d", (unsigned long long)n, s->id); s->c->s->send(x);
	if (!s->pingpong) after(s->up_gap, [s]() { up_step(s); });
}
void down_step(Sess *s) {
	UB *b = s->b; if (!b || b->over || b->s->closed || !s->b_switched) return;
	if (s->down_sent >= s->down.size()) { if (s->closer == 1) { after(s->idle, [s, b]() { if (b->over || b->s->closed) return; tr("backend closes sess %d", s->id); s->b_closed_by_us = true; if (b->kind == B_FCGI) b->s->send(frec(6, "", 0) + frec(3, std::string(8, 0), 0)); b->s->close(); b->gone(); progress_check(s); }); } progress_check(s); return; }
	if (s->pingpong && s->down_sent >= s->up_got) return;
	size_t n = s->down_piece > 0 ? std::min<size_t>(s->down_piece, s->down.size() - s->down_sent) : s->down.size() - s->down_sent;
	if (s->pingpong) n = std::min(n, s->up_got - s->down_sent);
	s->b->out(s->down.substr(s->down_sent, n)); s->down_sent += n;
	if (!s->pingpong || s->down_sent >= s->down.size() || s->down_sent < s->up_got) after(s->down_gap, [s]() { down_step(s); });
}
void progress_check(Sess *s) {
	if (s->all_done() && s->closer == 0 && s->b && !s->b->over && !s->b->s->closed && s->b_switched) after(s->idle, [s]() { if (s->b->over || s->b->s->closed) return; tr("backend closes sess %d", s->id); s->b_closed_by_us = true; if (s->b->kind == B_FCGI) s->b->s->send(frec(6, "", 0) + frec(3, std::string(8, 0), 0)); s->b->s->close(); s->b->gone(); progress_check(s); });
	if (s->all_done() && s->closer == 2 && !s->c_over && s->switched) after(s->idle, [s]() { if (s->c_over) return; tr("client closes sess %d", s->id); s->c_closed_by_us = true; s->c->giveup(s->rst); });
}
}
static void upgrade_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); BKind kind = (BKind)decide("u.kind", 3);
	c.modules = {"mod_proxy", "mod_scgi", "mod_fastcgi"}; vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n");
	std::string addr = decide("u.unix", 2) ? "unix:/vfs/u.sock" : "127.0.0.1:9001";
	Backend *be = new Backend; be->kind = kind; be->addr = addr; be->l.policy = []() { return decide("u.now", 2) ? CP_OK_NOW : CP_OK; }; be->l.accept = [kind]() -> Peer * { return new UB(kind); }; be->l.link = []() { return rand_link(); }; net_backend(addr, &be->l);
	c.actions = std::string("keepalive.timeout 300;\ndocroot \"/vfs/www\";\nif req.path == \"/probe\" { static; } else { ") + (kind == B_PROXY ? "proxy" : kind == B_SCGI ? "scgi" : "fastcgi") + " \"" + addr + "\"; }\n";
	if (chance("u.log", 0.2)) c.actions = "debug.log_request_handling true;\n" + c.actions;
	write_config(c);
	when_listening([f, kind]() {
		int nc = 1 + decide("u.nc", 5);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P23,P02,P05"; k->depth = 1;
			int pre = decide("u.pre", 3);
			for (int j = 0; j < pre; ++j) { Req q; q.bytes = req("GET", "/probe", "Host: h\r\n"); q.name = "pre"; q.check = [](Response &r) { if (r.status != 200 || r.body != "probe-ok\n") violation("P23,P01,P02", "pre", "static request on the same connection: status %d", r.status); }; k->reqs.push_back(q); }
			Sess *s = new Sess; s->id = 100 + i; ss[s->id] = s; s->kind = kind; s->c = k; s->accept = !chance("u.refuse", 0.15); s->refuse = decide("u.ref", 2) ? 403 : 200;
			size_t mx = chance("u.big", 0.2) ? 1500000 : 20000;
			s->up = content(1000 + s->id, pick_log("u.up", 0, mx)); s->down = content(2000 + s->id, pick_log("u.down", 0, mx));
			auto piece = [](size_t n, int64_t &p, vtime &g) { if (chance("u.piece", 0.7)) { p = pick_log("u.piecen", 1, 20000); if (n / p > 200) p = n / 200 + 1; } g = pick_log("u.gap", 0, 30000) * US; };
			piece(s->up.size(), s->up_piece, s->up_gap); piece(s->down.size(), s->down_piece, s->down_gap);
			if (chance("u.early", 0.3) && s->accept) s->early = pick_log("u.earlyn", 1, 5000);
			if (chance("u.glued", 0.5)) s->glued = pick_log("u.gluedn", 1, 5000);
			if (chance("u.body", 0.15)) s->body = content(3000 + s->id, pick_log("u.bodyn", 1, 5000));
			s->delay = chance("u.delay", 0.5) ? pick_log("u.delayms", 1, 3000) * MS : 0; s->idle = chance("u.idle", 0.4) ? pick_log("u.idlems", 1, 700000) * MS : 0;
			s->pingpong = chance("u.pp", 0.2); if (s->pingpong) { s->up.resize(std::min<size_t>(s->up.size(), 3000)); s->down.resize(std::min(s->down.size(), s->up.size())); s->up = s->up.substr(0, s->down.size()); s->glued = 0; if (s->up_piece < 100) s->up_piece = 100; if (s->down_piece < 100) s->down_piece = 100; s->early = std::min<size_t>(s->early, 100); }
			s->closer = f ? weighted("u.closer", {4, 2, 3, 2, 2}) : weighted("u.closer0", {2, 1, 2}); s->abrupt_at = pick_log("u.abrupt", 1, 5000) * MS; s->rst = chance("u.rst", 0.4);
			if (chance("u.slowrd", 0.2)) { k->pause_every = pick_log("u.pev", 1000, 100000); k->pause_for = pick_log("u.pms", 1, 3000) * MS; }
			std::string pre_h = strf("Host: h\r\nX-Sess: %d\r\nUpgrade: testproto\r\n", s->id); static const char *cv[] = {"Upgrade", "keep-alive, Upgrade", "upgrade"}; pre_h += std::string("Connection: ") + cv[decide("u.cv", 3)] + "\r\n";
			Req q; q.name = strf("upgrade %d", s->id); if (s->body.size()) pre_h += strf("Content-Length: %zu\r\n", s->body.size());
			q.bytes = req(s->body.size() ? "POST" : "GET", "/u", pre_h, s->body); size_t e = std::min(s->early, s->up.size()); q.bytes += s->up.substr(0, e); 
			if (!e && chance("u.trickle", 0.2)) { q.trickle = pick_log("u.trn", 1, 60); if ((int64_t)(q.bytes.size() / 200) > q.trickle) q.trickle = q.bytes.size() / 200; q.gap = pick_log("u.trg", 1, 5000) * US; }
			q.check = [s, k](Response &r) {
				if (r.has("X-Sess") && r.get("X-Sess") != strf("%d", s->id)) violation("P23,P06", "cross-talk", "session %d got the answer of session %s", s->id, r.get("X-Sess").c_str());
				if (!r.has("X-Sess")) violation("P23,P05,P07", "spurious-error", "session %d: answered %d by the server itself (backend switched: %d)", s->id, r.status, (int)s->b_switched);
				if (!s->accept) { if (r.status != s->refuse || r.body != content(s->id + 77, 1000 + s->id)) violation("P23,P05", "refused", "session %d: refused upgrade relayed as %d with %zu bytes", s->id, r.status, r.body.size()); stat_add("refused", 1); return; }
				if (r.status != 101) violation("P23,P05", "status", "session %d: status %d instead of 101", s->id, r.status);
				if (!ieq(r.get("Upgrade"), "testproto") || !ieq(r.get("Connection"), "Upgrade")) violation("P23,P05", "headers", "session %d: 101 response without its Upgrade/Connection headers", s->id);
				stat_add("switched", 1); s->switched = true;
				after(0, [s]() { up_step(s); });
				if (s->closer == 3) after(s->abrupt_at, [s]() { if (s->c_over) return; tr("client aborts sess %d", s->id); s->c_closed_by_us = true; s->c->giveup(s->rst); });
			};
			k->on_sent = [s, e](Client *, Req &q) { if (q.name != "pre") { s->req_sent = true; s->up_sent = e; } };
			k->on_raw = [s](Client *, const char *d, size_t n) {
				if (s->down_got + n > s->down_sent || memcmp(s->down.data() + s->down_got, d, n)) violation("P23,P05,P06", "down-bytes", "session %d: bytes [%zu,%zu) sent by the backend arrived changed at the client (backend sent %zu so far)", s->id, s->down_got, s->down_got + n, s->down_sent);
				s->down_got += n; stat_add("down_bytes", n); progress_check(s); if (s->pingpong) up_step(s);
			};
			k->reqs.push_back(q);
			if (!s->accept) for (int j = decide("u.post", 2); j > 0; --j) { Req q; q.bytes = req("GET", "/probe", "Host: h\r\n"); q.name = "post"; q.check = [](Response &r) { if (r.status != 200 || r.body != "probe-ok\n") violation("P23,P01,P02", "post", "static request after a refused upgrade: status %d", r.status); }; k->reqs.push_back(q); }
			k->on_end = [s](Client *k) {
				s->c_over = true; nontrivial(s->up_got * 3 + s->down_got + s->closer);
				if (s->accept && s->b_switched && !s->b_over && s->b) { Sess *x = s; after(60 * SEC + stalled_total, [x]() { if (!x->b_over) violation("P23,P09,P07", "half-dead", "session %d: client connection is gone but the backend connection stays open", x->id); }); }
				if (k->end == Client::ABORTED || k->end == Client::DONE) return;
				if (!s->switched) { if (s->accept && (s->closer == 4 || (s->b_closed_by_us && s->up_got < s->up_sent))) return; /* a reset by the backend may overtake its answer */ violation("P23,P02", "conn-broken", "session %d: connection ended with state %d before the response", s->id, (int)k->end); }
				if (s->closer == 4) return;
				if (!s->b_closed_by_us) violation("P23,P05", "dropped", "session %d: the server closed the client connection (%d) of an upgraded connection although the backend is still there (up %zu of %zu, down %zu of %zu)", s->id, (int)k->end, s->up_got, s->up.size(), s->down_got, s->down.size());
				bool quiet = s->up_got == s->up_sent;      // client bytes the backend never took may turn the close into a reset
				if (s->down_got != s->down.size() && quiet) violation("P23,P05", "down-lost", "session %d: the backend sent %zu bytes and closed, the client got only %zu (end state %d)", s->id, s->down.size(), s->down_got, (int)k->end);
			};
			track(k); after(pick_log("u.start", 0, 3000) * MS, [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P23,P10,P02"; o.client_deadline = 4000 * SEC;
		o.idle_cond = []() { return open_b ? strf("%d backend connection(s) still open although no client is left", open_b) : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("upgrade", upgrade_setup);
