#include "backend.h"
#include <algorithm>
namespace sim {
std::map<int, Plan *> plans;
int BackConn::open_now = 0, BackConn::total = 0;
int connect_failures = 0; vtime connect_trouble_until = -1;
static std::string getenvs(const std::map<std::string, std::string> &m, const char *k) { auto i = m.find(k); return i == m.end() ? "" : i->second; }

Backend *add_backend(BKind k, const std::string &addr) {
	Backend *b = new Backend; b->kind = k; b->addr = addr;
	b->l.policy = [b]() { ConnPolicy p = b->down ? b->down_policy : (decide("be.connow", 3) == 1 ? CP_OK_NOW : CP_OK); if (b->down) { ++connect_failures; ++b->fails; connect_trouble_until = now() + 7 * SEC; probe("backend_connect_failed"); } return p; };
	b->l.accept = [b]() -> Peer * { BackConn *c = new BackConn(b->kind); c->addr = b->addr; return c; };
	b->l.link = []() { return rand_link(); };
	net_backend(addr, &b->l);
	return b;
}
void BackConn::gone() { if (!over) { over = true; --open_now; if (p) { p->backend_closed = true; p->t_closed = now(); } } }
void BackConn::on_eof() {
	tr("backend conn eof plan %d", p ? p->id : -1);
	if (p && !p->complete) p->lost = true;
	// the web server finished (or gave up); nothing more to say once our answer is out
	if (!s->closed) s->close();
	gone();
}
void BackConn::on_reset() { tr("backend conn reset plan %d", p ? p->id : -1); if (p && !p->complete) p->lost = true; gone(); }

void BackConn::got_head(std::string method, std::string target, std::map<std::string, std::string> env) {
	heads = true; ++total;
	std::string pid = getenvs(env, "HTTP_X_PLAN");
	auto it = plans.find(atoi(pid.c_str()));
	if (it == plans.end()) violation("P04,P06", "backend-unknown", "backend received a request without a known X-Plan header: %s %s (%s)", method.c_str(), target.c_str(), pid.c_str());
	p = it->second; ++p->seen; p->t_seen = now();
	tr("backend request plan %d", p->id);
	if (p->seen > 1) violation("P06,P20", "duplicate", "request %d was handed to a backend %d times", p->id, p->seen);
	if (p->kind != kind) violation("P06", "wrong-backend", "request %d arrived at a backend of kind %d", p->id, (int)kind);
	std::string wt = p->path + (p->query.empty() ? "" : "?" + p->query);
	if (method != p->method) violation("P04", "method", "plan %d: method %s instead of %s", p->id, method.c_str(), p->method.c_str());
	if (target != wt) violation("P04", "target", "plan %d: target %s instead of %s", p->id, target.c_str(), wt.c_str());
	for (auto &h : p->headers) {
		std::string k = "HTTP_"; for (char c : h.k) k += c == '-' ? '_' : toupper(c);
		if (getenvs(env, k.c_str()) != h.v) violation("P04,P06", "header", "plan %d: header %s is '%s' instead of '%s'", p->id, h.k.c_str(), getenvs(env, k.c_str()).c_str(), h.v.c_str());
	}
	for (auto &e : env) if (e.first.compare(0, 7, "HTTP_XU") == 0) {
		bool ok = false; for (auto &h : p->headers) { std::string k = "HTTP_"; for (char c : h.k) k += c == '-' ? '_' : toupper(c); if (k == e.first) ok = true; }
		if (!ok) violation("P04,P06", "foreign-header", "plan %d: backend got header %s=%s which this request did not have", p->id, e.first.c_str(), e.second.c_str());
	}
	if (kind != B_PROXY) {
		if (p->query != getenvs(env, "QUERY_STRING")) violation("P04", "query", "plan %d: QUERY_STRING '%s' instead of '%s'", p->id, getenvs(env, "QUERY_STRING").c_str(), p->query.c_str());
		if (getenvs(env, "REQUEST_URI") != wt) violation("P04", "request-uri", "plan %d: REQUEST_URI '%s' instead of '%s'", p->id, getenvs(env, "REQUEST_URI").c_str(), wt.c_str());
	}
	std::string cl = getenvs(env, "CONTENT_LENGTH");
	if (p->has_body || !cl.empty()) {
		// streamed without a length when buffering on disk stopped because of a disk error
		bool stopped = p->kind == B_FCGI && p->chunked && cl.empty() && p->streamed || p->kind == B_FCGI && p->chunked && cl.empty() && faults[fault_id("disk_enospc")].fired + faults[fault_id("disk_write_eio")].fired + faults[fault_id("mkstemp_err")].fired > 0;
		if (!stopped && cl != strf("%zu", p->body.size())) violation("P04", "content-length", "plan %d: announced length '%s' instead of %zu", p->id, cl.c_str(), p->body.size());
	}
	want = p->body.size();
	if (p->early && !p->client_gave_up) { replied = true; after(p->delay, [this]() { reply(); }); }
}
void BackConn::got_body(const char *d, size_t n) {
	if (!p) violation("P04", "body-before-head", "body bytes before the request head");
	if (p->body_seen + n > p->body.size() || memcmp(p->body.data() + p->body_seen, d, n)) violation("P04", "body", "plan %d: request body differs within [%zu,%zu) of %zu", p->id, p->body_seen, p->body_seen + n, p->body.size());
	p->body_seen += n;
}
void BackConn::check_complete() {
	p->complete = true;
	if (p->body_seen != p->body.size()) violation("P04", "body-short", "plan %d: request ended after %zu of %zu body bytes", p->id, p->body_seen, p->body.size());
	if (p->client_gave_up) violation("P04", "complete-after-abort", "plan %d: backend got a complete request although the client never sent the whole body", p->id);
	tr("backend request plan %d complete", p->id);
	if (on_complete) { on_complete(this); return; }
	if (!replied) { replied = true; after(p->delay, [this]() { reply(); }); }
}
void BackConn::on_data(const char *d, size_t n) {
	in.append(d, n);
	tr("backend rx %llu", (unsigned long long)n);
	if (kind == B_PROXY) {
		if (!heads) {
			size_t e = in.find("\r\n\r\n"); if (e == std::string::npos) return;
			std::string h = in.substr(0, e + 2); in.erase(0, e + 4);
			size_t l = h.find("\r\n"); std::string rl = h.substr(0, l);
			size_t a = rl.find(' '), b = rl.rfind(' ');
			if (a == std::string::npos || b <= a || rl.compare(b + 1, 7, "HTTP/1.")) violation("P04", "proxy-request-line", "backend got request line '%s'", rl.c_str());
			std::map<std::string, std::string> env; size_t i = l + 2;
			while (i < h.size()) {
				size_t j = h.find("\r\n", i); std::string x = h.substr(i, j - i); i = j + 2;
				size_t c = x.find(':'); if (c == std::string::npos) violation("P04", "proxy-header", "backend got header line '%s'", x.c_str());
				std::string k; for (size_t q = 0; q < c; ++q) k += x[q] == '-' ? '_' : toupper(x[q]);
				std::string v = x.substr(c + 1); while (v.size() && v[0] == ' ') v.erase(0, 1);
				if (k == "CONTENT_LENGTH") { if (env.count(k)) violation("P04", "proxy-header", "two Content-Length headers"); env[k] = v; }
				else { std::string kk = "HTTP_" + k; env[kk] = env.count(kk) ? env[kk] + ", " + v : v; }
				if (k == "TRANSFER_ENCODING") violation("P04", "proxy-te", "backend got Transfer-Encoding: %s together with a decoded body", v.c_str());
			}
			got_head(rl.substr(0, a), rl.substr(a + 1, b - a - 1), env);
			if (over) return;
			if (want == 0) { check_complete(); }
		}
		if (heads && in.size()) { if (p->complete) violation("P04", "extra-bytes", "plan %d: %zu bytes after the complete request", p->id, in.size()); std::string b; b.swap(in); got_body(b.data(), b.size()); if ((int64_t)p->body_seen == want && !p->complete) check_complete(); }
	} else if (kind == B_SCGI) {
		if (!heads) {
			size_t c = in.find(':'); if (c == std::string::npos) { if (in.size() > 12) violation("P04", "scgi-netstring", "bad netstring"); return; }
			size_t len = atoi(in.c_str()); if (in.size() < c + 1 + len + 1) return;
			if (in[c + 1 + len] != ',') violation("P04", "scgi-netstring", "netstring not terminated by a comma");
			std::string h = in.substr(c + 1, len); in.erase(0, c + 1 + len + 1);
			std::map<std::string, std::string> env; size_t i = 0; bool first = true;
			while (i < h.size()) {
				size_t j = h.find('\0', i); if (j == std::string::npos) violation("P04", "scgi-env", "unterminated name"); std::string k = h.substr(i, j - i);
				size_t m = h.find('\0', j + 1); if (m == std::string::npos) violation("P04", "scgi-env", "unterminated value"); env[k] = h.substr(j + 1, m - j - 1);
				if (first && k != "CONTENT_LENGTH") violation("P04", "scgi-env", "CONTENT_LENGTH is not the first header"); first = false;
				i = m + 1;
			}
			got_head(getenvs(env, "REQUEST_METHOD"), getenvs(env, "REQUEST_URI"), env);
			if (over) return;
			if (want == 0) check_complete();
		}
		if (heads && in.size()) { if (p->complete) violation("P04", "extra-bytes", "plan %d: %zu bytes after the complete request", p->id, in.size()); std::string b; b.swap(in); got_body(b.data(), b.size()); if ((int64_t)p->body_seen == want && !p->complete) check_complete(); }
	} else {
		while (in.size() >= 8) {
			const uint8_t *h = (const uint8_t *)in.data(); size_t cl = h[4] * 256 + h[5], pl = h[6]; int type = h[1]; int rid = h[2] * 256 + h[3];
			if (h[0] != 1) violation("P04", "fcgi-version", "record version %d", h[0]);
			if (rid != 1) violation("P04", "fcgi-id", "record with request id %d", rid);
			if (in.size() < 8 + cl + pl) return;
			std::string c = in.substr(8, cl); in.erase(0, 8 + cl + pl);
			if (type == 1) { if (fcgi_begin || cl != 8 || c[1] != 1) violation("P04", "fcgi-begin", "bad BEGIN_REQUEST"); fcgi_begin = true; }
			else if (type == 4) {
				if (!fcgi_begin || fcgi_params_done) violation("P04", "fcgi-order", "PARAMS out of order");
				params += c;
				if (cl == 0) {
					fcgi_params_done = true; std::map<std::string, std::string> env; size_t i = 0;
					auto len = [&]() -> size_t { if (i >= params.size()) violation("P04", "fcgi-params", "truncated params"); uint8_t b = params[i++]; if (b < 128) return b; if (i + 3 > params.size()) violation("P04", "fcgi-params", "truncated params"); size_t v = ((size_t)(b & 127) << 24) | ((uint8_t)params[i] << 16) | ((uint8_t)params[i + 1] << 8) | (uint8_t)params[i + 2]; i += 3; return v; };
					while (i < params.size()) { size_t a = len(), b = len(); if (i + a + b > params.size()) violation("P04", "fcgi-params", "truncated params"); env[params.substr(i, a)] = params.substr(i + a, b); i += a + b; }
					got_head(getenvs(env, "REQUEST_METHOD"), getenvs(env, "REQUEST_URI"), env);
					if (over) return;
				}
			} else if (type == 5) {
				if (!fcgi_params_done) violation("P04", "fcgi-order", "STDIN before PARAMS end");
				if (p->complete) violation("P04", "fcgi-order", "STDIN after its end");
				if (cl) got_body(c.data(), cl); else check_complete();
			} else if (type == 2) { tr("backend got ABORT"); }
			else violation("P04", "fcgi-type", "record type %d", type);
			if (over) return;
		}
	}
}
// ---- responses -------------------------------------------------------------------------------------
static std::string fcgi_rec(int type, const std::string &c, int pad) {
	std::string r; r += (char)1; r += (char)type; r += (char)0; r += (char)1; r += (char)(c.size() >> 8); r += (char)(c.size() & 255); r += (char)pad; r += (char)0;
	return r + c + std::string(pad, 'P');
}
void build_wire(Plan *p) {
	std::string head;
	if (p->kind == B_PROXY) { head = strf("HTTP/1.%d %d Planned\r\n", p->http10 ? 0 : 1, p->status); if (p->interim) head = "HTTP/1.1 100 Continue\r\n\r\n" + head; }
	else if (p->http10) head = strf("HTTP/1.1 %d Planned\r\n", p->status);          // nph style
	else head = strf("Status: %d Planned\r\n", p->status);
	for (auto &h : p->rh) head += h.k + ": " + h.v + "\r\n";
	std::string b = p->rbody;
	if (p->framing == Plan::CL) head += strf("Content-Length: %zu\r\n", p->rbody.size());
	if (p->framing == Plan::CHUNKED) {
		head += "Transfer-Encoding: chunked\r\n"; b.clear(); size_t i = 0;
		while (i < p->rbody.size()) { size_t n = std::min<size_t>(p->rbody.size() - i, 1 + pick_log("be.chunk", 0, 40000)); b += strf(decide("be.chunkx", 2) ? "%zX\r\n" : "%zx\r\n", n) + p->rbody.substr(i, n) + "\r\n"; i += n; }
		b += "0\r\n\r\n";
	}
	head += "\r\n";
	if (p->nobody && p->framing != Plan::CHUNKED) b.clear();
	if (p->nobody) b.clear();
	std::string w = head + b;
	p->head_len = head.size();
	if (p->kind == B_FCGI) {
		std::string o; size_t i = 0; bool first = true;
		while (i < w.size()) {
			if (chance("fc.err", 0.1)) o += fcgi_rec(7, content(p->id, pick_log("fc.errn", 1, 300)), decide("fc.pad", 9));
			if (chance("fc.unk", 0.05)) o += fcgi_rec(11, std::string(8, 'u'), decide("fc.pad", 9));
			size_t n = std::min<size_t>(w.size() - i, 1 + (first ? pick_log("fc.rec0", 0, 400) : pick_log("fc.rec", 0, 60000)));
			first = false;
			if (n > 65535) n = 65535;
			o += fcgi_rec(6, w.substr(i, n), chance("fc.bigpad", 0.2) ? decide("fc.pad2", 256) : decide("fc.pad", 9)); i += n;
		}
		if (chance("fc.noeof", 0.2)) {} else o += fcgi_rec(6, "", decide("fc.pad", 9));
		if (chance("fc.erreof", 0.2)) o += fcgi_rec(7, "", 0);
		std::string end(8, 0); if (p->fault == BF_FCGI_STATUS) end[4] = 1 + decide("fc.pstatus", 3);
		o += fcgi_rec(3, end, decide("fc.pad", 9));
		if (p->fault == BF_FCGI_VERSION) { o = o.substr(0, 0) + o; size_t q = decide("fc.badver", 2) ? 0 : o.size(); if (q == 0) o[0] = 2; else { std::string bad = fcgi_rec(6, "x", 0); bad[0] = 7; o = bad + o; } }
		w = o;
	}
	p->wire = w;
}
void BackConn::reply() {
	if (over || s->closed || s->reset) return;
	p->responded = true;
	switch (p->fault) {
	case BF_HANG: tr("backend hangs plan %d", p->id); return;
	case BF_CLOSE_BEFORE: probe("backend_close_before"); s->close(); gone(); return;
	case BF_RST_BEFORE: probe("backend_rst_before"); s->abort(); gone(); return;
	case BF_GARBAGE: p->wire = decide("be.garb", 2) ? content(p->id, 200) + "\r\n\r\n" : std::string("HTTP/9.9 xyz\r\n\r\n"); break;
	default: break;
	}
	push(0);
}
void BackConn::push(size_t off) {
	if (over || s->closed || s->reset) return;
	size_t lim = p->wire.size();
	if (p->fault == BF_TRUNC_FIN || p->fault == BF_TRUNC_RST) lim = std::min(lim, p->cut);
	if (off >= lim) { finish_wire(); return; }
	size_t n = p->piece > 0 ? std::min<size_t>(p->piece, lim - off) : lim - off;
	s->send(p->wire.substr(off, n)); off += n; p->wire_sent = off;
	if (off >= lim) { p->all_sent = true; after(p->gap, [this]() { finish_wire(); }); return; }
	after(p->gap, [this, off]() { push(off); });
}
void BackConn::finish_wire() {
	if (over || s->closed || s->reset) return;
	if (p->fault == BF_TRUNC_RST) { probe("backend_trunc_rst"); s->abort(); gone(); return; }
	if (p->fault == BF_TRUNC_FIN) { probe("backend_trunc_fin"); s->close(); gone(); return; }
	bool must_close = (p->kind == B_PROXY && p->framing == Plan::CLOSE) || p->kind == B_SCGI || p->fault == BF_GARBAGE;
	if (must_close || variant) { s->close(); gone(); }
	// otherwise wait for the web server to close
}
Plan *rand_plan(BKind k, bool faults, size_t maxbody) {
	static int seq = 0;
	Plan *p = new Plan; p->id = ++seq; p->kind = k; plans[p->id] = p;
	p->path = strf("/%c/%d", "psf"[k], p->id); if (chance("pl.query", 0.5)) p->query = strf("a=%d&b=%s", p->id, std::string(pick_log("pl.ql", 0, 300), 'q').c_str());
	switch (weighted("pl.method", {5, 5, 1, 1, 1})) { case 0: p->method = "GET"; break; case 1: p->method = "POST"; break; case 2: p->method = "HEAD"; p->head = true; break; case 3: p->method = "PUT"; break; case 4: p->method = "DELETE"; break; }
	if (p->method == "POST" || p->method == "PUT") {
		p->has_body = true; p->body = content(5000 + p->id, pick_log("pl.body", 0, maxbody)); p->chunked = chance("pl.chunked", 0.3);
	}
	int nh = decide("pl.nh", 4);
	for (int i = 0; i < nh; ++i) p->headers.push_back({strf("XU%d-%c", p->id, 'A' + i), strf("v%d-%d", p->id, i) + std::string(pick_log("pl.hl", 0, 200), 'h')});
	static const int st[] = {200, 200, 200, 404, 500, 201, 204, 304, 302, 503};
	p->status = st[decide("pl.status", 10)];
	p->nobody = p->head || p->status == 204 || p->status == 304;
	p->rh.push_back({"X-Plan-Id", strf("%d", p->id)}); p->rh.push_back({"Content-Type", "application/x-plan"});
	int nr = decide("pl.nrh", 4);
	for (int i = 0; i < nr; ++i) p->rh.push_back({"Set-Cookie", strf("c%d=%d%s", i, p->id, std::string(pick_log("pl.rhl", 0, 300), 'k').c_str())});
	if (p->status == 302) p->rh.push_back({"Location", strf("http://elsewhere/%d", p->id)});
	if (!p->nobody) p->rbody = content(9000 + p->id, pick_log("pl.rbody", 0, maxbody));
	p->framing = k == B_PROXY ? (weighted("pl.fram", {3, 3, 2}) == 0 ? Plan::CL : weighted("pl.fram2", {1, 1}) ? Plan::CHUNKED : Plan::CLOSE) : (chance("pl.framc", 0.5) ? Plan::CLOSE : Plan::CL);
	if (p->nobody) p->framing = Plan::CLOSE;
	p->http10 = p->framing != Plan::CHUNKED && chance("pl.h10", 0.2);
	if (k != B_PROXY && k != B_FCGI) p->http10 = false;
	p->delay = chance("pl.delay", 0.4) ? pick_log("pl.delay.ms", 1, 4000) * MS : 0;
	if (chance("pl.piece", 0.5)) { p->piece = pick_log("pl.piece.n", 1, 20000); p->gap = pick_log("pl.gap.us", 1, 30000) * US; }
	if (faults && chance("pl.fault", 0.35)) {
		p->fault = (BFault)(1 + decide("pl.fkind", BF_N - 1));
		if ((p->fault == BF_FCGI_STATUS || p->fault == BF_FCGI_VERSION) && k != B_FCGI) p->fault = BF_TRUNC_FIN;
	}
	build_wire(p);
	if (p->piece > 0 && p->wire.size() / p->piece > 400) p->piece = p->wire.size() / 400 + 1;
	if (p->fault == BF_TRUNC_FIN || p->fault == BF_TRUNC_RST) p->cut = decide("pl.cutend", 3) == 0 ? p->wire.size() - 1 - decide("pl.cut1", std::min<size_t>(p->wire.size() - 1, 40)) : decide("pl.cut", p->wire.size());
	tr("plan %d kind %d %s body %lld chunked %d -> %d framing %d rbody %lld head %lld wire %lld fault %d cut %lld piece %lld delay %lld", p->id, (int)p->kind, p->method.c_str(), (long long)p->body.size(), (int)p->chunked, p->status, (int)p->framing, (long long)p->rbody.size(), (long long)p->head_len, (long long)p->wire.size(), (int)p->fault, (long long)p->cut, (long long)p->piece, (long long)p->delay);
	return p;
}
std::string plan_request(Plan *p, bool ka) {
	std::string h = strf("Host: be\r\nX-Plan: %d\r\n", p->id);
	for (auto &x : p->headers) h += x.k + ": " + x.v + "\r\n";
	if (!ka) h += "Connection: close\r\n";
	std::string b = p->body;
	if (p->has_body) {
		if (p->chunked) {
			h += "Transfer-Encoding: chunked\r\n"; b.clear(); size_t i = 0;
			while (i < p->body.size()) { size_t n = std::min<size_t>(p->body.size() - i, 1 + pick_log("rq.chunk", 0, 60000)); b += strf("%zx\r\n", n) + p->body.substr(i, n) + "\r\n"; i += n; }
			b += "0\r\n\r\n";
		} else h += strf("Content-Length: %zu\r\n", p->body.size());
	}
	return req(p->method, p->path + (p->query.empty() ? "" : "?" + p->query), h, b);
}
// exact comparison with what the plan says
void check_plan_response(Plan *p, Response &r) {
	if (r.get("X-Plan-Id") != strf("%d", p->id)) violation("P05,P06", "cross-talk", "plan %d: response carries X-Plan-Id '%s' (status %d)", p->id, r.get("X-Plan-Id").c_str(), r.status);
	if (r.status != p->status) violation("P05,P06", "status", "plan %d: status %d instead of %d", p->id, r.status, p->status);
	std::vector<std::string> a, b;
	for (auto &h : p->rh) if (h.k == "Set-Cookie") a.push_back(h.v);
	for (auto &h : r.h) if (ieq(h.k, "Set-Cookie")) b.push_back(h.v);
	if (a != b) violation("P05,P06", "headers", "plan %d: Set-Cookie headers changed (%zu sent, %zu received)", p->id, a.size(), b.size());
	bool subst = p->status >= 400 && p->rbody.empty();   // an empty error response is given the server's own error page
	if (subst && !p->head && r.body.size() && r.body.find("<html") == std::string::npos) violation("P05,P06", "body", "plan %d: %zu bytes for an empty error response", p->id, r.body.size());
	for (auto &h : p->rh) if (h.k != "Set-Cookie" && !(subst && h.k == "Content-Type") && r.get(h.k.c_str()) != h.v) violation("P05,P06", "headers", "plan %d: header %s is '%s' instead of '%s'", p->id, h.k.c_str(), r.get(h.k.c_str()).c_str(), h.v.c_str());
	if (!p->head && !subst && r.body != p->rbody) {
		size_t d = 0; while (d < r.body.size() && d < p->rbody.size() && r.body[d] == p->rbody[d]) ++d;
		violation("P05,P06", "body", "plan %d: body differs at %zu (got %zu bytes, sent %zu)", p->id, d, r.body.size(), p->rbody.size());
	}
	if (!p->complete && !p->early) violation("P05", "early", "plan %d: response before the backend had the request", p->id);
}
}
