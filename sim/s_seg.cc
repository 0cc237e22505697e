// The same request byte stream, cut into segments in different ways, has to be answered the same way.
#include "harness.h"
#include <algorithm>
using namespace sim;

namespace {
struct Item {
	std::string bytes; bool head = false; bool malformed = false, bodybad = false, closes = false; std::string what;
	std::string expect;        // exact body expected (model); empty: only compared between the clients
	bool have_expect = false;
};
struct Got { int status; std::string body; bool close; };
struct SegClient : Peer {
	int id; LinkOpts link; std::string stream; std::vector<size_t> cuts; std::vector<vtime> gaps; size_t ncut = 0, off = 0;
	RespParser rp; std::vector<Got> got; bool over = false, reset = false, eof = false, done_sending = false; size_t want = 0; bool wait_eof = false; std::string from; vtime t0 = 0, t_end = 0;
	std::function<void(SegClient *)> on_over;
	void start() {
		t0 = now();
		rp.on_response = [this](Response &r) {
			tr("seg %d resp %d body %lld conn %s", id, r.status, (long long)r.body.size(), r.get("Connection").c_str());
			got.push_back({r.status, r.body, ieq(r.get("Connection"), "close")});
			check_done();
		};
		net_connect(listen_addr, this, from, link);
	}
	void check_done() { if (!over && !wait_eof && done_sending && got.size() >= want) { s->close(); finish(); } }
	void finish() { if (over) return; over = true; t_end = now(); if (on_over) on_over(this); }
	void on_connect() override { step(); }
	void step() {
		if (over) return;
		size_t e = ncut < cuts.size() ? cuts[ncut] : stream.size();
		if (e > off) s->send(stream.substr(off, e - off));
		off = e;
		if (off >= stream.size()) { done_sending = true; check_done(); return; }
		vtime g = gaps[ncut]; ++ncut;
		if (g <= 0) g = 1 * US;
		after(g, [this]() { step(); });
	}
	void on_data(const char *p, size_t n) override { if (!rp.feed(p, n) && !over) violation("P02,P03", "malformed", "seg client %d: %s", id, rp.error.c_str()); }
	void on_eof() override { rp.eof(); eof = true; s->close(); finish(); }
	void on_reset() override { reset = true; finish(); }
	void on_refused(int) override { harness_error("refused"); }
};
struct Echo : Peer {
	std::string in; bool head = false; size_t want = 0; std::string rl; bool over = false;
	static int open_now;
	Echo() { ++open_now; }
	void gone() { if (!over) { over = true; --open_now; } }
	void on_data(const char *p, size_t n) override {
		in.append(p, n);
		if (!head) {
			size_t e = in.find("\r\n\r\n"); if (e == std::string::npos) return;
			std::string h = in.substr(0, e + 2); in.erase(0, e + 4); head = true; rl = h.substr(0, h.find("\r\n"));
			rl = rl.substr(0, rl.rfind(' '));
			std::string l; for (char c : h) l += tolower(c);
			size_t c = l.find("\r\ncontent-length:"); if (c != std::string::npos) want = atoll(l.c_str() + c + 17);
			if (l.find("\r\ntransfer-encoding:") != std::string::npos) violation("P03,P04", "te", "backend got a Transfer-Encoding header");
		}
		if (in.size() > want) violation("P03,P04", "extra-bytes", "backend got %zu body bytes, announced %zu (%s)", in.size(), want, rl.c_str());
		if (head && in.size() == want) {
			std::string b = rl + strf(" %zu %016llx", in.size(), (unsigned long long)fnv64(in));
			s->send("HTTP/1.1 200 OK\r\nContent-Type: text/plain\r\n" + strf("Content-Length: %zu\r\n\r\n", b.size()) + b);
		}
	}
	static uint64_t fnv64(const std::string &x) { uint64_t h = 1469598103934665603ull; for (unsigned char c : x) { h ^= c; h *= 1099511628211ull; } return h; }
	void on_eof() override { s->close(); gone(); }
	void on_reset() override { gone(); }
};
int Echo::open_now = 0;
}
static std::string rnd_tok(const char *site, size_t lo, size_t hi) { size_t n = pick_log(site, lo, hi); std::string r; for (size_t i = 0; i < n; ++i) r += "abcdefghijklmnopqrstuvwxyz0123456789-_"[decide(site, 38)]; return r; }
static std::string eol() { return decide("eol", 8) == 7 ? "\n" : "\r\n"; }
static Item valid_item(int j) {
	Item it; std::string method = "GET"; bool body = false;
	switch (weighted("sg.method", {6, 1, 1, 1, 4})) { case 1: method = "HEAD"; it.head = true; break; case 2: method = "OPTIONS"; break; case 3: method = "X" + rnd_tok("sg.mt", 1, 20); break; case 4: method = chance("sg.put", 0.3) ? "PUT" : "POST"; body = true; break; }
	std::string path = strf("/%c/%d", body ? 'b' : 'r', j), raw = path, query;
	if (!body) { std::string t = rnd_tok("sg.path", 0, 40); path += t; raw += t; if (chance("sg.esc", 0.3)) { path += "Az ~"; raw += "%41z%20%7e"; } }
	if (chance("sg.q", 0.5)) query = "q=" + rnd_tok("sg.ql", 0, 200);
	std::string host = chance("sg.host", 0.3) ? "Example.com:8080" : "h";
	std::string host_l = host == "h" ? "h" : "example.com";
	std::string h; bool xa = chance("sg.xa", 0.6); std::string xav = xa ? rnd_tok("sg.xav", 1, 300) : "";
	std::string xbv; bool loose = false;
	int lead = weighted("sg.lead", {6, 1, 1}); std::string e = eol();
	std::string b = ""; for (int i = 0; i < lead; ++i) b += eol();
	bool abs = !body && chance("sg.abs", 0.1);
	std::string target = (abs ? "http://" + host : std::string()) + raw + (query.empty() ? "" : "?" + query);
	bool h10 = chance("sg.h10", 0.08);
	b += method + " " + target + (h10 ? " HTTP/1.0" : " HTTP/1.1") + e;
	h += std::string(decide("sg.hcase", 2) ? "Host: " : "hOST:") + host + eol();
	if (xa) h += (decide("sg.xcase", 2) ? "X-A: " : "x-a:\t ") + xav + (decide("sg.trail", 3) == 2 ? "  " : "") + eol();
	int nx = decide("sg.nx", 4);
	for (int i = 0; i < nx; ++i) h += strf("X-Junk%d: ", i) + rnd_tok("sg.junk", 0, 500) + (decide("sg.comma", 4) == 3 ? ", \"quoted \\\" str\"" : "") + eol();
	if (chance("sg.fold", 0.1)) { h += "X-B: one" + eol() + " two" + eol(); loose = true; }
	else if (chance("sg.xb", 0.3)) { xbv = rnd_tok("sg.xbv", 1, 40); h += "X-B: " + xbv + eol(); }
	if (chance("sg.close", 0.06)) { h += "Connection: close" + eol(); it.closes = true; }
	if (h10) it.closes = true;
	if (chance("sg.big", 0.05)) for (int i = 0; i < 20; ++i) h += strf("X-Pad%d: ", i) + std::string(1000 + decide("sg.bigl", 1900), 'p') + eol();
	std::string bd, bwire;
	if (body) {
		size_t n = pick_log("sg.body", 0, 100000);
		if (chance("sg.smug", 0.4)) { while (bd.size() < n) bd += strf("GET /smuggled/%d HTTP/1.1\r\nHost: h\r\n\r\n", j); bd.resize(n); } else bd = content(700 + j, n);
		if (!h10 && chance("sg.chunked", 0.5)) {
			bool cl = chance("sg.clte", 0.15), first = cl && chance("sg.clte1", 0.5); std::string clh = strf("Content-Length: %d", (int)decide("sg.cltev", 50)) + eol(); // the length is overridden
			if (first) h += clh; h += "Transfer-Encoding: chunked" + eol(); if (cl && !first) h += clh; size_t i = 0;
			while (i < bd.size()) { size_t m = std::min<size_t>(bd.size() - i, 1 + pick_log("sg.chunk", 0, 20000)); bwire += strf(decide("sg.cx", 3) == 2 ? "00%zX\r\n" : decide("sg.cx", 2) ? "%zX\r\n" : "%zx\r\n", m) + bd.substr(i, m) + "\r\n"; i += m; }
			bwire += "0\r\n"; if (chance("sg.trailer", 0.2)) bwire += "X-Trailer: a\r\nX-T2: b\r\n"; bwire += "\r\n";
		} else { bwire = bd; h += strf(decide("sg.clz", 5) == 4 ? "Content-Length: 000%zu" : "Content-Length: %zu", bd.size()) + eol(); if (chance("sg.ident", 0.1)) h += "Transfer-Encoding: identity" + eol(); }
		if (!h10 && chance("sg.100", 0.1)) h += "Expect: 100-continue" + eol();
		it.expect = method + " " + target + strf(" %zu %016llx", bd.size(), (unsigned long long)Echo::fnv64(bd)); it.have_expect = true;
	} else {
		it.expect = method + "|" + path + "|" + query + "|" + host_l + "|" + xav + "|" + xbv; it.have_expect = !loose;
	}
	it.bytes = b + h + eol() + bwire; it.what = method + " " + raw;
	return it;
}
static Item bad_item() {
	Item it; it.malformed = true; it.closes = true; int k = decide("sg.bad", 33); it.what = strf("malformed kind %d", k);
	std::string H = "Host: h\r\n", G = "GET /r/bad HTTP/1.1\r\n", P = "POST /b/bad HTTP/1.1\r\n";
	switch (k) {
	case 0: it.bytes = "GET /r/bad\r\n" + H + "\r\n"; break;
	case 1: it.bytes = "GET /r/bad HTTP/2.7\r\n" + H + "\r\n"; break;
	case 2: it.bytes = G + H + "Bad header line\r\n\r\n"; break;
	case 3: it.bytes = G + H + "X-A : v\r\n\r\n"; break;
	case 4: it.bytes = G + H + "X-A: v\x01w\r\n\r\n"; break;
	case 5: it.bytes = G + "X-A: v\r\n\r\n"; break;
	case 6: it.bytes = G + H + "Host: other\r\n\r\n"; break;
	case 7: it.bytes = P + H + "Content-Length: abc\r\n\r\n"; break;
	case 8: it.bytes = P + H + "Content-Length: -5\r\n\r\n"; break;
	case 9: { static const char *n[] = {"99999999999999999999999", "9223372036854775808", "18446744073709551616", "18446744073709551619", "36893488147419103235"}; it.bytes = P + H + "Content-Length: " + n[decide("sg.clover", 5)] + "\r\n\r\nabc"; break; }
	case 10: it.bytes = "GET /" + std::string(8200 + decide("sg.urilen", 3000), 'u') + " HTTP/1.1\r\n" + H + "\r\n"; break;
	case 11: it.bytes = P + H + "Transfer-Encoding: gzip\r\n\r\n"; break;
	case 12: it.bytes = P + H + "Transfer-Encoding: chunked\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n"; break;
	case 13: it.bytes = P + H + "Content-Length: 3\r\nExpect: foo\r\n\r\nabc"; break;
	case 14: it.bytes = "GE(T /r/bad HTTP/1.1\r\n" + H + "\r\n"; break;
	case 15: it.bytes = G + "Host: a b\r\n\r\n"; break;
	case 16: it.bytes = "GET foo HTTP/1.1\r\n" + H + "\r\n"; break;
	case 17: it.bytes = "GET * HTTP/1.1\r\n" + H + "\r\n"; break;
	case 18: { std::string x; while (x.size() < 66000) x += strf("X-H%zu: ", x.size()) + std::string(1000, 'h') + "\r\n"; it.bytes = G + H + x + "\r\n"; break; }
	case 19: it.bytes = P + H + "Transfer-Encoding: chunked\r\n\r\nzz\r\nabc"; it.bodybad = true; break;
	case 20: it.bytes = P + H + "Transfer-Encoding: chunked\r\n\r\n3\r\nabcXX0\r\n\r\n"; it.bodybad = true; break;
	case 21: { // a size that does not fit into 63 bits; its low bits may look plausible
		std::string n; int m = decide("sg.over", 6); if (m == 0) n = "fffffffffffffffffff"; else if (m == 1) n = "8000000000000000"; else if (m == 2) n = "ffffffffffffffff"; else { n = strf("%x", 1 + (unsigned)decide("sg.ovh", 15)); size_t z = m == 3 ? 13 : m == 4 ? 15 : 10 + decide("sg.ovz", 20); n += std::string(2, '0') + std::string(z, '0') + "3"; if (n.size() < 17) n = std::string("1") + std::string(17 - n.size(), '0') + n; }
		if (decide("sg.ovlead", 3) == 2) n = "000" + n;
		it.bytes = P + H + "Transfer-Encoding: chunked\r\n\r\n" + n + "\r\nabc\r\n0\r\n\r\n"; it.bodybad = true; break; }
	case 22: it.bytes = G + H + "X-A: \"abc\r\n\r\n"; break;
	case 23: it.bytes = P + H + "Content-Length: 3\r\nContent-Length: 30\r\n\r\nabc"; break;
	case 25: { std::string in = "GET /r/smuggled HTTP/1.1\r\nHost: h\r\n\r\n"; it.head = !decide("sg.gm", 2); it.bytes = (!it.head ? G : "HEAD /r/bad HTTP/1.1\r\n") + H + "Transfer-Encoding: chunked\r\n\r\n" + (decide("sg.gc", 2) ? strf("%zx\r\n", in.size()) + in + "\r\n0\r\n\r\n" : "0\r\n\r\n"); break; }
	case 26: it.bytes = G + H + "Content-Length: 5\r\n\r\nhello"; break;
	case 27: { static const char *n[] = {"", "+3", "0x3", "3, 3", "3 3", "3;", "3.0", "٣"}; it.bytes = P + H + "Content-Length: " + n[decide("sg.clbad", 8)] + "\r\n\r\nabc"; break; }
	case 28: { static const char *n[] = {"chunked, gzip", "xchunked", "chunkedx", "chunked;q=1", "gzip, chunked", "\"chunked\""}; it.bytes = P + H + "Transfer-Encoding: " + n[decide("sg.tebad", 6)] + "\r\n\r\n3\r\nabc\r\n0\r\n\r\n"; break; }
	case 29: { static const char *n[] = {"-3", "+3", " 3", "0x3", "", "3g", "\t3", "3 "}; it.bytes = P + H + "Transfer-Encoding: chunked\r\n\r\n" + n[decide("sg.csbad", 8)] + "\r\nabc\r\n0\r\n\r\n"; it.bodybad = true; break; }
	case 30: it.bytes = P + H + "Transfer-Encoding : chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n"; break;
	case 31: it.bytes = P + H + "\r\n"; break;      // no length
	case 32: it.bytes = P + H + "Transfer-Encoding: chunked\r\n\r\n3\nabc\r\n0\r\n\r\n"; it.bodybad = true; break;
	case 24: it.bytes = std::string("G\0T /r/bad HTTP/1.1\r\n", 21) + H + "\r\n"; break;
	}
	return it;
}
static std::vector<Item> items; static std::vector<SegClient *> segs; static size_t answerable; static bool ends_bad, ends_close;
static void compare(SegClient *a) {
	stat_add("responses", a->got.size());
	size_t n = answerable;      // well-formed requests that have to be answered
	size_t maxn = n + (ends_bad ? 1 : 0);
	if (a->got.size() > maxn) violation("P03,P02", "smuggled", "seg client %d: %zu responses to a stream with %zu answerable requests; extra one has status %d", a->id, a->got.size(), maxn, a->got[maxn].status);
	for (size_t i = 0; i < n; ++i) {
		if (i >= a->got.size() && a->reset && ends_bad && items[n].bodybad) return;   // a malformed body aborts the connection; the reset may overtake what was sent before
		if (i >= a->got.size()) violation("P03,P02", "unanswered", "seg client %d: request %zu (%s) not answered (eof %d reset %d)", a->id, i, items[i].what.c_str(), (int)a->eof, (int)a->reset);
		Got &g = a->got[i];
		if (g.status != 200) violation("P03,P02", "status", "seg client %d: request %zu (%s) answered %d instead of 200", a->id, i, items[i].what.c_str(), g.status);
		if (items[i].have_expect && g.body != (items[i].head ? std::string() : items[i].expect)) violation("P03,P06", "interpretation", "seg client %d: request %zu (%s) was interpreted as '%.200s' instead of '%.200s'", a->id, i, items[i].what.c_str(), g.body.c_str(), items[i].expect.c_str());
	}
	if (ends_bad) {
		Item &b = items[n];
		if (a->got.size() > n && a->got[n].status < 400) violation("P03", "bad-accepted", "seg client %d: %s answered with status %d", a->id, b.what.c_str(), a->got[n].status);
		if (a->got.size() <= n && !b.bodybad) violation("P03,P02", "bad-unanswered", "seg client %d: %s not answered (eof %d reset %d)", a->id, b.what.c_str(), (int)a->eof, (int)a->reset);
	}
	for (SegClient *b : segs) if (b != a && b->over) {
		size_t m = std::min(a->got.size(), b->got.size());
		for (size_t i = 0; i < m; ++i) {
			if (ends_bad && i == n && items[n].bodybad) continue;
			if (a->got[i].status != b->got[i].status || a->got[i].body != b->got[i].body) violation("P03", "differs", "request %zu (%s): client %d got %d '%.80s', client %d got %d '%.80s' for the same bytes", i, items[i].what.c_str(), a->id, a->got[i].status, a->got[i].body.c_str(), b->id, b->got[i].status, b->got[i].body.c_str());
		}
		if (!(ends_bad && items[n].bodybad) && a->got.size() != b->got.size()) violation("P03", "differs", "%zu responses for client %d, %zu for client %d to the same bytes", a->got.size(), a->id, b->got.size(), b->id);
	}
}
static BackendListener echo_l;
static void seg_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	c.modules = {"mod_proxy"};
	vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n");
	c.actions = "keepalive.timeout 100;\ndocroot \"/vfs/www\";\nif req.path == \"/probe\" { } else if req.path =^ \"/b/\" { proxy \"127.0.0.1:9001\"; }\n"
		"else { respond 200 => \"%{req.method}|%{req.path}|%{req.query}|%{req.host}|%{req.header[x-a]}|%{req.header[x-b]}\"; }\n";
	echo_l.policy = []() { return CP_OK; }; echo_l.accept = []() -> Peer * { return new Echo; };
	net_backend("127.0.0.1:9001", &echo_l);
	write_config(c);
	when_listening([]() {
		int n = 1 + decide("sg.n", 6); bool closed = false; answerable = 0;
		for (int j = 0; j < n; ++j) { items.push_back(valid_item(j)); if (!closed) ++answerable; if (items.back().closes) closed = true; }
		if (!closed && chance("sg.mal", 0.6)) {
			ends_bad = true; items.push_back(bad_item()); int m = decide("sg.after", 3);
			for (int j = 0; j < m; ++j) { Item it; it.bytes = strf("GET /r/after%d HTTP/1.1\r\nHost: h\r\n\r\n", j); it.what = "request after the malformed one"; items.push_back(it); }
		}
		ends_close = closed;
		std::string stream; std::vector<size_t> bounds; for (auto &i : items) { stream += i.bytes; bounds.push_back(stream.size()); }
		if (getenv("SIM_DUMP")) for (auto &i : items) tr("item %s closes %d: %.1500s", i.what.c_str(), (int)i.closes, i.bytes.c_str());
		int nc = 2 + decide("sg.clients", 4);
		for (int i = 0; i < nc; ++i) {
			SegClient *k = new SegClient; k->id = i; k->from = strf("10.1.0.%d:%d", i + 1, 40000 + i); k->stream = stream; k->want = answerable; k->wait_eof = ends_bad || ends_close;
			for (auto &it : items) k->rp.head_reqs.push_back(it.head);
			if (i > 0) {
				k->link = rand_link(); k->link.bw = 0;
				int mode = decide("sg.mode", 4); vtime gap = pick_log("sg.gap.us", 1, 30000) * US; std::set<size_t> cs;
				if (mode == 0) { int m = 1 + decide("sg.ncut", 20); for (int q = 0; q < m; ++q) cs.insert(decide("sg.cut", stream.size())); }
				else if (mode == 1) { size_t a = decide("sg.win", stream.size()); for (size_t q = 0; q < 250 && a + q < stream.size(); ++q) cs.insert(a + q); }      // byte by byte in a window
				else if (mode == 2) { size_t e = std::min<size_t>(stream.size(), 400); for (size_t q = 1; q < e; ++q) cs.insert(q); }
				else { size_t b = bounds[decide("sg.bound", bounds.size())]; for (int q = -60; q < 60; ++q) if ((int64_t)b + q > 0 && b + q < stream.size()) cs.insert(b + q); } // around a message boundary
				cs.erase(0);
				for (size_t x : cs) { k->cuts.push_back(x); k->gaps.push_back(decide("sg.nogap", 3) == 0 ? 0 : gap); }
			}
			segs.push_back(k);
			k->on_over = [](SegClient *k) { compare(k); nontrivial(k->got.size() * 31 + items.size()); };
			after(i == 0 ? 0 : pick_log("sg.start", 0, 300) * MS, [k]() { k->start(); });
		}
		EndOpts o; o.live_prop = "P02,P03,P10"; o.client_deadline = 400 * SEC;
		o.extra_done = []() { for (auto *k : segs) if (!k->over) return false; return true; };
		o.idle_cond = []() { return Echo::open_now ? std::string("backend connections still open") : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("seg", seg_setup);
