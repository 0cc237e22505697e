// Relaying: what one side has sent reaches the other side promptly (nothing is held back waiting for more), and a slow
// receiver stops the reading from the sender once the configured buffer limit is reached.
#include "backend.h"
#include "tlscert.h"
#include "tlsclient.h"
#include <algorithm>
using namespace sim;
namespace {
enum Mode { DOWN_PROMPT, DOWN_BOUND, UP_PROMPT, UP_BOUND };
const char *mode_name[] = {"prompt-down", "bound-down", "prompt-up", "bound-up"};
int64_t lim_out, lim_in; const std::string tls_addr = "127.0.0.1:8443"; bool stop_all; bool fast_backends;
struct FBack;
struct Flow {
	int id; Mode m; Plan *p; Client *k; FBack *b = nullptr; bool done = false;
	std::vector<size_t> piece; size_t next = 0, cum = 0; vtime gap = 0; bool h10 = false, tls = false, defl = false;
	size_t pause_at = 0; vtime pause_len = 0; bool paused = false, was_paused = false; int64_t max_gap = 0; size_t head_sent = 0;
	LinkOpts bl;
	vtime slack(size_t n) {
		vtime d = 1500 * MS + stalled_total + slow_total;
		for (const LinkOpts *l : {(const LinkOpts *)&bl, (const LinkOpts *)&k->link}) d += (vtime)(n / std::min(l->rcvcap, l->sndcap) + 4) * 4 * (l->lat + l->jitter + MS);
		return d;
	}
	size_t have() { if (!defl) return k->rp.cur.body.size(); std::string o; gunzip(k->rp.cur.body, o, 0); return o.size(); }
	void sample();
	void down_step();
	void up_step();
};
std::map<int, Flow *> by_plan;
// run f after d, later if the server was stalled meanwhile
void after_unstalled(vtime d, std::function<void()> f) { vtime st = stalled_total + slow_total; after(d, [st, f]() { vtime x = stalled_total + slow_total - st; if (x > 0) after_unstalled(x + 50 * MS, f); else f(); }); }
LinkOpts mklink() { LinkOpts l = rand_link(); l.bw = 0; l.lat = std::min<vtime>(l.lat, 30 * MS); l.jitter = std::min<vtime>(l.jitter, 10 * MS); l.sndcap = std::max<size_t>(l.sndcap, 2048); l.rcvcap = std::max<size_t>(l.rcvcap, 2048); return l; }
std::string rec(const std::string &c) { std::string r("\x01\x06\x00\x01", 4); r += (char)(c.size() >> 8); r += (char)(c.size() & 255); r += std::string(2, 0); return r + c; }
struct FBack : BackConn {
	Flow *f = nullptr; FBack(BKind k) : BackConn(k) { on_complete = [this](BackConn *) { complete(); }; }
	std::string wrap(const std::string &s) { if (kind != B_FCGI) return s; std::string o; for (size_t i = 0; i < s.size(); i += 60000) o += rec(s.substr(i, 60000)); return o; }
	void on_data(const char *d, size_t n) override {
		BackConn::on_data(d, n);
		if (over || !p) return;
		if (!f) { f = by_plan[p->id]; f->b = this; }
		if (f->m == UP_BOUND && !f->was_paused && p->body_seen >= f->pause_at) {
			f->was_paused = f->paused = true; s->pause(); tr("flow %d: backend stops reading", f->id);
			after(f->pause_len, [this]() { f->paused = false; if (!over) s->resume(); });
		}
	}
	void complete() {
		if (!f) { f = by_plan[p->id]; f->b = this; }
		std::string h = kind == B_PROXY ? "HTTP/1.1 200 Planned\r\n" : "Status: 200 Planned\r\n";
		for (auto &x : p->rh) h += x.k + ": " + x.v + "\r\n";
		if (p->framing == Plan::CL) h += strf("Content-Length: %zu\r\n", p->rbody.size()); if (p->framing == Plan::CHUNKED) h += "Transfer-Encoding: chunked\r\n";
		s->send(wrap(h + "\r\n"));
		if (f->m == DOWN_PROMPT) f->down_step();
		else { body(p->rbody, true); }
	}
	void body(const std::string &d, bool last) {
		std::string o = p->framing == Plan::CHUNKED && d.size() ? strf("%zx\r\n", d.size()) + d + "\r\n" : d; if (last && p->framing == Plan::CHUNKED) o += "0\r\n\r\n";
		o = wrap(o); if (last && kind == B_FCGI) { o += rec(""); o += std::string("\x01\x03\x00\x01\x00\x08\x00\x00", 8) + std::string(8, 0); }
		s->send(o); if (last && (kind == B_SCGI || p->framing == Plan::CLOSE) && !over) { s->close(); gone(); }
	}
};
void Flow::down_step() {
	if (done || b->over) return;
	size_t n = piece[next++]; bool last = next == piece.size(); std::string d = p->rbody.substr(cum, n); cum += n; size_t want = cum;
	b->body(d, last); if (last) return;
	after_unstalled(slack(n), [this, want]() {
		if (done) return; size_t have = this->have(); stat_add("prompt_pieces", 1); if (defl) stat_add("prompt_pieces_compressed", 1);
		if (!k->over && k->got == 0 && have < want) violation("P29", "held-back", "%s: the backend sent %zu body bytes, the client still has only %zu of them (%s)", p->tag.c_str(), want, have, k->desc().c_str());
	});
	after_unstalled(slack(n), [this]() { after(gap, [this]() { down_step(); }); });
}
void Flow::up_step() {
	if (done || k->over) return;
	size_t n = piece[next++]; bool last = next == piece.size(); std::string d = p->body.substr(cum, n); cum += n; size_t want = cum;
	k->s->send(p->chunked ? strf("%zx\r\n", n) + d + "\r\n" + (last ? "0\r\n\r\n" : "") : d); if (last) return;
	vtime sl = slack(n) + (next == 1 ? 300 * MS : 0);
	after_unstalled(sl, [this, want]() {
		if (done) return; stat_add("prompt_pieces", 1);
		if (!k->over && p->body_seen < want) violation("P29", "held-back", "%s: the client sent %zu body bytes, the backend still has only %zu of them (%s)", p->tag.c_str(), want, p->body_seen, k->desc().c_str());
	});
	after_unstalled(sl, [this]() { after(gap, [this]() { up_step(); }); });
}
void Flow::sample() {
	if (done) return;
	if (b && k->s) {
		Conn *cc = k->s->c, *bc = b->s ? b->s->c : nullptr;
		if (bc && bc->sock[0] && cc->sock[1]) {
			int64_t g = m == DOWN_BOUND ? (int64_t)bc->sock[0]->rx - (int64_t)cc->h[1].total_in : m == UP_BOUND ? (int64_t)cc->sock[1]->rx - (int64_t)bc->h[0].total_in : 0;
			int64_t l = m == DOWN_BOUND ? lim_out : lim_in; max_gap = std::max(max_gap, g); 
			if (l > 0 && g > std::max<int64_t>(l, 262144) + 512 * 1024) violation("P29", "unbounded", "%s: %lld bytes read from the %s are not passed on yet, the buffer limit is %lld", p->tag.c_str(), (long long)g, m == DOWN_BOUND ? "backend" : "client", (long long)l);
		}
	}
	after(50 * MS, [this]() { sample(); });
}
}
static void flow_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n"); gnutls_certificate_allocate_credentials(&cred);
	std::string mod = decide("fl.lib", 2) ? "openssl" : "gnutls"; more_listen.push_back(tls_addr); vfs_put("/vfs/server.pem", pem_ec);
	c.modules = {"mod_proxy", "mod_scgi", "mod_fastcgi", "mod_deflate", "mod_" + mod}; c.setup += mod + " [\"listen\" => \"127.0.0.1:8443\", \"pemfile\" => \"/vfs/server.pem\"];\n";
	std::string addr[3] = {"127.0.0.1:9001", "127.0.0.1:9002", "127.0.0.1:9003"}; if (decide("knob.unix", 2)) addr[2] = "unix:/vfs/fcgi.sock";
	for (int k = 0; k < 3; ++k) { Backend *b = add_backend((BKind)k, addr[k]); b->l.policy = []() { return CP_OK; }; b->l.link = []() { LinkOpts l = mklink(); if (fast_backends) { l.lat = std::min<vtime>(l.lat, 5 * MS); l.rcvcap = std::max<size_t>(l.rcvcap, 65536); l.sndcap = std::max<size_t>(l.sndcap, 65536); } return l; }; BKind kd = (BKind)k; b->l.accept = [kd]() -> Peer * { return new FBack(kd); }; }
	fast_backends = decide("fl.fastb", 3) > 0;
	static const int64_t lims[] = {16384, 32768, 65536, 262144, 1048576}; std::string lim; lim_out = lim_in = 262144;
	if (chance("fl.lo", 0.5)) { lim_out = lims[decide("fl.lov", 5)]; if (chance("fl.unl", 0.1)) lim_out = 0; lim += strf("io.buffer_out %lld; ", (long long)lim_out); }
	if (chance("fl.li", 0.5)) { lim_in = lims[decide("fl.liv", 5)]; if (chance("fl.unl", 0.1)) lim_in = 0; lim += strf("io.buffer_in %lld; ", (long long)lim_in); }
	std::string dopt = "\"encodings\" => \"gzip\""; if (chance("fl.dob", 0.4)) dopt += strf(", \"output-buffer\" => %lld", (long long)(1 + pick_log("fl.dobv", 0, 30000))); if (chance("fl.dbs", 0.3)) dopt += strf(", \"blocksize\" => %lld", (long long)(1024 + pick_log("fl.dbsv", 0, 60000)));
	c.actions = "keepalive.timeout 300;\nbuffer_request_body false;\ndocroot \"/vfs/www\";\nif req.path != \"/probe\" { " + lim + "if req.path =^ \"/p/\" { proxy \"" + addr[0] + "\"; } else if req.path =^ \"/s/\" { scgi \"" + addr[1] + "\"; } else { fastcgi \"" + addr[2] + "\"; } if req.is_handled { deflate [ " + dopt + " ]; } }\n";
	write_config(c);
	when_listening([f]() {
		int nc = 1 + decide("fl.nc", 4);
		for (int i = 0; i < nc; ++i) {
			Flow *w = new Flow; w->id = i; w->m = (Mode)decide("fl.mode", 4); bool up = w->m >= UP_PROMPT, prompt = w->m == DOWN_PROMPT || w->m == UP_PROMPT;
			BKind kd = (BKind)decide("fl.kind", 3); Plan *p = w->p = rand_plan(kd, false, 10); by_plan[p->id] = w;
			Client *k = w->k = new_client(); k->link = mklink(); w->bl = k->link; w->bl.rcvcap = w->bl.sndcap = 2048; w->bl.lat = 30 * MS; w->bl.jitter = 10 * MS;
			if (!prompt) { k->link.lat = std::min<vtime>(k->link.lat, 5 * MS); k->link.rcvcap = std::max<size_t>(k->link.rcvcap, 65536); k->link.sndcap = std::max<size_t>(k->link.sndcap, 65536); } k->malformed_prop = "P29,P02,P05";
			w->h10 = chance("fl.h10", 0.15); w->tls = chance("fl.tls", 0.25); w->defl = w->m == DOWN_PROMPT && chance("fl.defl", 0.4);
			if (w->tls) { Tls *t = new Tls; t->k = k; k->connector = [t](const std::string &) { t->open(tls_addr); }; if (chance("fl.tchunk", 0.3)) t->chunk = 1 + pick_log("fl.tchunkn", 500, 16000); }
			p->path = strf("/%c/%d", kd == B_PROXY ? 'p' : kd == B_SCGI ? 's' : 'f', i); p->query.clear(); p->method = up ? "POST" : "GET"; p->head = p->nobody = p->interim = p->early = false; p->status = 200; p->http10 = false; p->piece = 0; p->fault = BF_NONE; p->streamed = true;
			p->has_body = up; p->chunked = up && kd == B_FCGI && !w->h10 && chance("fl.chunked", 0.4); p->body.clear(); p->tag = strf("%s flow %d (%s%s%s)", mode_name[w->m], i, kd == B_PROXY ? "proxy" : kd == B_SCGI ? "scgi" : "fastcgi", w->h10 ? ", HTTP/1.0" : "", w->tls ? ", TLS" : ""); if (w->defl) p->tag += " compressed";
			size_t total = 0; if (prompt) { int np = 2 + decide("fl.np", 6); for (int j = 0; j < np; ++j) { w->piece.push_back(chance("fl.tiny", 0.3) ? 1 : pick_log("fl.piece", 1, w->defl ? 60000 : 12000)); total += w->piece.back(); } } else total = 1000000 + pick_log("fl.total", 1, 5000000);
			w->gap = pick_log("fl.gap", 1, 3000) * MS;
			if (up) { p->body = content(p->id, total); p->rbody = content(p->id + 1000, pick_log("fl.rb", 1, 3000)); } else p->rbody = content(p->id + 1000, total);
			p->framing = kd == B_PROXY || decide("fl.cgicl", 2) ? (decltype(p->framing))decide("fl.fr", 3) : Plan::CLOSE;
			w->pause_at = pick_log("fl.pat", 1, total / 4 + 1); w->pause_len = pick_log("fl.plen", 2000, 40000) * MS;
			Req q; q.tag = p->id; q.name = p->tag; std::string h = strf("Host: h\r\nX-Plan: %d\r\n", p->id); for (auto &y : p->headers) h += y.k + ": " + y.v + "\r\n"; if (w->defl) h += "Accept-Encoding: gzip\r\n"; if (up) h += p->chunked ? std::string("Transfer-Encoding: chunked\r\n") : strf("Content-Length: %zu\r\n", total);
			q.bytes = req(p->method, p->path, h, "", w->h10 ? 0 : 1);
			if (w->m == UP_BOUND) { if (p->chunked) { size_t o = 0; while (o < total) { size_t n = std::min<size_t>(total - o, 1 + pick_log("fl.chk", 0, 60000)); q.bytes += strf("%zx\r\n", n) + p->body.substr(o, n) + "\r\n"; o += n; } q.bytes += "0\r\n\r\n"; } else q.bytes += p->body; }
			q.check = [p, w](Response &r) { if (w->defl) { if (r.get("Content-Encoding") != "gzip") violation("P17", "status", "%s: not compressed", p->tag.c_str()); std::string o; if (!gunzip(r.body, o, 0)) violation("P17,P29", "undecodable", "%s: complete body of %zu bytes does not decode", p->tag.c_str(), r.body.size()); r.body = o; probe("compressed"); } if (!r.has("X-Plan-Id") || r.get("X-Plan-Id") != strf("%d", p->id)) violation("P29,P05,P06", "status", "%s: answered %d without the header of its backend", p->tag.c_str(), r.status); if (r.status != 200) violation("P29,P05", "status", "%s: status %d", p->tag.c_str(), r.status); if (r.body != p->rbody) violation("P29,P05", "body", "%s: response body differs (%zu bytes instead of %zu)", p->tag.c_str(), r.body.size(), p->rbody.size()); p->answered = true; };
			k->reqs.push_back(q);
			if (w->m == UP_PROMPT) k->on_sent = [w](Client *, Req &) { after(1, [w]() { w->up_step(); }); };
			if (w->m == DOWN_BOUND) after(20 * MS, [w]() { struct P { static void poll(Flow *w) { if (w->done) return; if (!w->was_paused && w->k->rp.cur.body.size() >= w->pause_at && w->k->s) { w->was_paused = w->paused = true; w->k->s->pause(); tr("flow %d: client stops reading", w->id); after(w->pause_len, [w]() { w->paused = false; if (!w->k->over) w->k->s->resume(); }); return; } after(5 * MS, [w]() { poll(w); }); } }; P::poll(w); });
			k->on_end = [w](Client *k) {
				w->done = true; if (k->end != Client::DONE && !(k->end == Client::EOF_CLEAN && k->got == 1)) violation("P29,P05,P02", "broken", "%s: connection ended with state %d before the response was complete", w->p->tag.c_str(), (int)k->end);
				stat_add(mode_name[w->m], 1); if (w->max_gap > 0) { stat_add("max_gap_bytes", w->max_gap); } tr("flow %d: max gap %lld (limits %lld %lld)", w->id, (long long)w->max_gap, (long long)lim_out, (long long)lim_in); nontrivial(w->m * 1000 + w->p->kind * 100 + (w->was_paused ? 50 : 0) + (int)std::min<int64_t>(w->max_gap / 16384, 40));
				if (w->was_paused) probe("stopped_reading"); if (w->max_gap > 200000) probe("buffer_filled");
			};
			track(k); after(pick_log("fl.start", 0, 1500) * MS, [k, w]() { k->start(listen_addr); if (w->m == DOWN_BOUND || w->m == UP_BOUND) w->sample(); });
		}
		EndOpts o; o.live_prop = "P29,P10,P02,P05"; o.idle_cond = []() { return BackConn::open_now ? strf("%d backend connection(s) still open although no request is left", BackConn::open_now) : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("flow", flow_setup);
