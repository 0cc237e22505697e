// Compressed responses (mod_deflate): what the client decodes equals the source; encodings are negotiated; failures stay visible.
#include "backend.h"
#include <algorithm>
using namespace sim;
namespace {
std::set<std::string> conf_enc;
struct DFile { std::string path, data; size_t cut = 0; bool trunc = false; std::map<std::string, std::string> tags; bool seen_enc = false; };
std::vector<DFile *> dfiles; bool truncated, eio;
struct AE { const char *hdr; std::vector<const char *> ok; };
const AE aes[] = {
	{nullptr, {}}, {"gzip", {"gzip"}}, {"deflate", {"deflate"}}, {"bzip2", {"bzip2"}}, {"x-gzip", {"x-gzip", "gzip"}}, {"x-bzip2", {"x-bzip2", "bzip2"}},
	{"gzip, deflate", {"gzip", "deflate"}}, {"deflate,gzip", {"gzip", "deflate"}}, {"gzip;q=0.5, deflate;q=1.0", {"gzip", "deflate"}}, {"identity", {}},
	{"br, zstd", {}}, {"br,gzip", {"gzip"}}, {"gzip;q=0", {}}, {"deflate, gzip;q=0", {"deflate"}}, {"bzip2;q=0.000, gzip", {"gzip"}}, {"gzipped, notdeflate", {}},
	{"x-gzip, gzip", {"gzip", "x-gzip"}}, {"compress", {"compress"}}, {"GZIP", {"gzip"}}, {"", {}}, {"bzip2, gzip, deflate", {"bzip2", "gzip", "deflate"}}, {"identity;q=1, deflate;q=0 , gzip ;q=0.0", {}}};
struct Ask { DFile *f = nullptr; Plan *p = nullptr; int ae = 0; bool head = false; std::string inm; int64_t ra = -1, rb = -1; bool own_enc = false; std::string betag; bool http10 = false; };
std::string mk(uint64_t key, size_t n) {
	switch (decide("d.data", 4)) {
	case 0: return content(key, n);
	case 1: return std::string(n, 'z');
	case 2: { std::string s; while (s.size() < n) s += strf("line %zu of object %llu\n", s.size(), (unsigned long long)key); s.resize(n); return s; }
	default: { std::string s = content(key, n); for (size_t i = 0; i + 3000 < n; i += 7000) std::fill(s.begin() + i, s.begin() + i + 3000, (char)i); return s; }
	}
}
bool decode(const std::string &enc, const std::string &in, std::string &out) {
	if (enc == "gzip" || enc == "x-gzip") return gunzip(in, out, 0);
	if (enc == "deflate") return gunzip(in, out, 1);
	if (enc == "bzip2" || enc == "x-bzip2") return bunzip(in, out);
	return false;
}
std::string show(const Ask &q) { return strf("%s %s (Accept-Encoding: %s)", q.head ? "HEAD" : "GET", q.f ? q.f->path.c_str() : q.p->path.c_str(), aes[q.ae].hdr ? aes[q.ae].hdr : "none"); }
bool fails(const Ask &q) { return q.p ? q.p->fault != BF_NONE : truncated && q.f->trunc || eio && faults[fault_id("disk_read_eio")].fired; }
// undoes the encoding in r; returns the encoding name ("" if the module left the response alone)
std::string undo(const Ask &q, Response &r) {
	std::string ce = r.get("Content-Encoding"); std::string w = show(q);
	if (r.count("Content-Encoding") > 1) violation("P17,P05", "double-encoding", "%s: %d Content-Encoding headers", w.c_str(), r.count("Content-Encoding"));
	if (q.own_enc) { if (ce != "x-own" && r.has("X-Plan-Id") && !(q.p->status >= 400 && q.p->rbody.empty())) violation("P17,P05", "already-encoded", "%s: Content-Encoding of an already encoded response became '%s'", w.c_str(), ce.c_str()); return ""; }
	if (ce.empty()) return "";
	std::string l = ce; bool ok = false; for (auto *e : aes[q.ae].ok) if (l == e) ok = true;
	if (!ok) violation("P17", "not-accepted", "%s: answered with Content-Encoding %s", w.c_str(), ce.c_str());
	if (!conf_enc.count(l)) violation("P17", "not-configured", "%s: answered with Content-Encoding %s which is not enabled", w.c_str(), ce.c_str());
	if (r.status == 204 || r.status == 205 || r.status == 206) violation("P17", "must-not-encode", "%s: status %d with Content-Encoding %s", w.c_str(), r.status, ce.c_str());
	bool vary = false; for (auto &h : r.h) if (ieq(h.k, "Vary") && h.v.find("Accept-Encoding") != std::string::npos) vary = true;
	if (!vary) violation("P17", "no-vary", "%s: encoded response without Vary: Accept-Encoding", w.c_str());
	if (r.status == 304 || q.head) return l;
	if (r.until_close && fails(q)) return l;      // HTTP/1.0 style body: cut off by the end of the connection, does not have to decode
	std::string d; if (!decode(l, r.body, d)) violation("P17", "undecodable", "%s: complete %s body of %zu bytes does not decode", w.c_str(), l.c_str(), r.body.size());
	r.body = d; r.clen = -1; probe("decoded"); probe(("enc_" + l).c_str());
	for (size_t i = 0; i < r.h.size(); ++i) if (ieq(r.h[i].k, "Content-Encoding")) { r.h.erase(r.h.begin() + i); break; }
	return l;
}
void judge_file(Ask &q, Response &r) {
	DFile *f = q.f; std::string w = show(q), enc = undo(q, r), tag = r.get("ETag");
	if (r.status == 304) {
		if (q.inm.empty() || tag.empty() || q.inm.find(tag) == std::string::npos) violation("P17,P16", "bad-304", "%s: 304 with ETag %s for If-None-Match %s", w.c_str(), tag.c_str(), q.inm.c_str());
		bool known = false; for (auto &t : f->tags) if (t.second == tag) known = true;
		if (!known) violation("P17,P16", "bad-304", "%s: 304 with the unknown ETag %s", w.c_str(), tag.c_str());
		probe("304"); return;
	}
	if (q.ra >= 0 && r.status == 206) {
		if (!q.head && r.body != f->data.substr(q.ra, q.rb - q.ra + 1)) violation("P17,P16,P01", "range", "%s: wrong bytes for range %lld-%lld", w.c_str(), (long long)q.ra, (long long)q.rb);
		probe("206"); return;
	}
	if (q.ra >= 0) violation("P16", "range", "%s: status %d for a valid range", w.c_str(), r.status);
	if (eio && r.status == 500 && fails(q)) return;
	if (r.status != 200) violation("P17,P01", "status", "%s: status %d", w.c_str(), r.status);
	if (tag.empty()) violation("P17,P16", "no-etag", "%s: no ETag", w.c_str());
	auto it = f->tags.find(enc);
	if (it == f->tags.end()) {
		for (auto &t : f->tags) if (t.second == tag) violation("P17,P16", "etag-shared", "%s: '%s' and '%s' representations share the ETag %s", w.c_str(), enc.c_str(), t.first.c_str(), tag.c_str());
		f->tags[enc] = tag;
	} else if (it->second != tag && !f->trunc) violation("P17,P16", "etag-unstable", "%s: ETag %s instead of %s", w.c_str(), tag.c_str(), it->second.c_str());
	if (!enc.empty()) f->seen_enc = true;
	else if (f->seen_enc) { bool v = false; for (auto &h : r.h) if (ieq(h.k, "Vary") && h.v.find("Accept-Encoding") != std::string::npos) v = true; if (!v) violation("P17", "no-vary", "%s: identity response of a resource that is also sent encoded has no Vary: Accept-Encoding", w.c_str()); }
	if (q.head) { if (!enc.empty() && r.clen >= 0) violation("P17,P02", "head-length", "%s: HEAD names encoding %s with length %lld", w.c_str(), enc.c_str(), (long long)r.clen); return; }
	if (fails(q) && r.until_close) return;
	if (f->trunc && truncated && r.body == f->data.substr(0, f->cut)) return;
	if (r.body != f->data) {
		size_t d = 0; while (d < r.body.size() && d < f->data.size() && r.body[d] == f->data[d]) ++d;
		violation(enc.empty() ? "P17,P01" : "P17", "content", "%s: decoded %s body of %zu bytes differs from the file (%zu bytes) at %zu", w.c_str(), enc.c_str(), r.body.size(), f->data.size(), d);
	}
	if (!q.inm.empty() && f->tags.count(enc) && q.inm.find(f->tags[enc]) != std::string::npos) violation("P17,P16", "missed-304", "%s: full answer although If-None-Match has its ETag %s", w.c_str(), tag.c_str());
}
void judge_plan(Ask &q, Response &r) {
	Plan *p = q.p; p->answered = true; std::string w = show(q);
	std::string enc = undo(q, r);
	if (!r.has("X-Plan-Id")) {
		if (r.status < 500) violation("P17,P05,P07", "status", "%s: status %d generated by the server", w.c_str(), r.status);
		if (p->fault == BF_NONE) violation("P17,P05,P07", "spurious-error", "%s: status %d although the backend was fine", w.c_str(), r.status);
		return;
	}
	Plan x = *p;
	x.rh.erase(std::remove_if(x.rh.begin(), x.rh.end(), [&](Header &h) { return h.k == "ETag" || (h.k == "Content-Encoding" && p->status >= 400 && p->rbody.empty()); }), x.rh.end());
	if (!enc.empty() && !q.betag.empty() && r.get("ETag") == q.betag) violation("P17,P16", "etag-shared", "%s: encoded response kept the ETag %s of the unencoded one", w.c_str(), q.betag.c_str());
	if (enc.empty() && r.get("ETag") != q.betag && !(p->status >= 400 && p->rbody.empty())) violation("P17,P05", "etag-changed", "%s: ETag %s instead of %s on an unencoded response", w.c_str(), r.get("ETag").c_str(), q.betag.c_str());
	if (p->fault != BF_NONE && r.until_close && r.has("X-Plan-Id")) { if (enc.empty() && p->rbody.compare(0, r.body.size(), r.body)) violation("P17,P05", "body", "%s: body is not a prefix of what the backend sent", w.c_str()); return; }
	if (p->fault == BF_NONE) { check_plan_response(&x, r); stat_add("relayed", 1); return; }
	switch (p->fault) {
	case BF_TRUNC_FIN: case BF_TRUNC_RST: {
		std::string what = strf("%s: backend failed after %zu of %zu bytes (fault %d) but the client got a complete response of %zu decoded bytes", w.c_str(), p->cut, p->wire.size(), (int)p->fault, r.body.size());
		if (p->framing != Plan::CLOSE || p->nobody) { if (p->nobody || r.body == p->rbody) { check_plan_response(&x, r); return; } violation("P17,P05", "masked-failure", "%s", what.c_str()); }
		size_t sent = p->cut > p->head_len ? p->cut - p->head_len : 0; if (p->cut < p->head_len) violation("P17,P05", "truncated-head", "%s", what.c_str());
		if (p->fault == BF_TRUNC_RST) sent = std::min(sent, r.body.size());
		x.rbody = p->rbody.substr(0, sent); check_plan_response(&x, r); return;
	}
	default: violation("P17,P05", "masked-failure", "%s: backend failed with kind %d but the client got a complete response with status %d", w.c_str(), (int)p->fault, r.status);
	}
}
}
static void deflate_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f);
	c.modules = {"mod_deflate", "mod_proxy"}; vfs_mkdirs("/var/tmp"); vfs_put("/vfs/www/probe", "probe-ok\n");
	if (f) { static const double r[] = {0, 0, 0.01, 0.1}; set_fault("disk_short_read", r[decide("knob.dshort", 4)]); set_fault("disk_eintr", r[decide("knob.deintr", 3)]); set_fault("sendfile_einval", r[decide("knob.sfinval", 4)]); }
	add_backend(B_PROXY, "127.0.0.1:9001");
	static const char *es[] = {"gzip", "deflate", "bzip2", "x-gzip", "x-bzip2"}; std::string el;
	if (chance("d.encs", 0.6)) { for (auto *e : es) if (chance("d.enc", 0.5)) { conf_enc.insert(e); el += (el.empty() ? "" : chance("d.sp", 0.5) ? ", " : ",") + std::string(e); } if (el.empty()) { el = "gzip"; conf_enc.insert("gzip"); } }
	else for (auto *e : es) conf_enc.insert(e);
	std::string o = "\"compression-level\" => " + strf("%d", 1 + decide("d.level", chance("d.hi", 0.3) ? 9 : 3));
	if (el.size()) o += ", \"encodings\" => \"" + el + "\"";
	if (chance("d.bs", 0.6)) o += strf(", \"blocksize\" => %lld", (long long)pick_log("d.bsz", 200, 100000));
	if (chance("d.ob", 0.6)) o += strf(", \"output-buffer\" => %lld", (long long)pick_log("d.obz", 16, 70000));
	c.actions = "keepalive.timeout 300;\ndocroot \"/vfs/www\";\n";
	if (chance("knob.statsync", 0.3)) c.actions = "stat.async false;\n" + c.actions;
	c.actions += "if req.path =^ \"/p/\" { proxy \"127.0.0.1:9001\"; }\nstatic;\nif req.is_handled { deflate [ " + o + " ]; }\n";
	int nf = 1 + decide("d.nf", 4);
	for (int i = 0; i < nf; ++i) { DFile *d = new DFile; d->path = strf("/d%d", i); d->data = mk(300 + i, pick_log("d.size", 0, chance("d.big", 0.2) ? 1500000 : 120000)); d->trunc = f && i == 0 && chance("d.trunc", 0.3); dfiles.push_back(d); vfs_put("/vfs/www" + d->path, d->data); }
	write_config(c);
	when_listening([f]() {
		if (f && chance("d.eio", 0.15)) { eio = true; set_fault("disk_read_eio", chance("d.eio2", 0.5) ? 0.03 : 0.2); }
		int nc = 1 + decide("d.nc", 4); vtime span = 0;
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P17,P02,P05"; k->depth = 1 + weighted("d.depth", {5, 1, 1});
			if (chance("d.slow", 0.3)) { k->pause_every = pick_log("d.pe", 500, 60000); k->pause_for = pick_log("d.pf", 1, 1500) * MS; }
			int nr = 1 + decide("d.reqs", 7);
			for (int j = 0; j < nr; ++j) {
				Ask *q = new Ask; Req r; q->ae = chance("d.simple", 0.5) ? 1 + decide("d.ae1", 3) : decide("d.ae", sizeof aes / sizeof *aes);
				std::string h = "Host: h\r\n"; if (aes[q->ae].hdr) h += std::string("Accept-Encoding: ") + aes[q->ae].hdr + "\r\n";
				r.think = chance("d.think", 0.3) ? pick_log("d.thinkms", 1, 2000) * MS : 0; span += r.think; r.aux = (int64_t)q;
				q->http10 = j == nr - 1 && chance("d.h10", 0.1);
				if (chance("d.plan", 0.45)) {
					Plan *p = q->p = rand_plan(B_PROXY, f, 150000);
					p->method = chance("d.phead", 0.1) ? "HEAD" : "GET"; p->head = p->method == "HEAD"; p->has_body = false; p->body.clear(); p->chunked = false;
					if (chance("d.odd", 0.1)) p->status = 206; p->nobody = p->head || p->status == 204 || p->status == 304; p->interim = false;
					if (p->status == 304) p->status = 200, p->nobody = p->head;
					if (p->nobody) { p->rbody.clear(); p->framing = Plan::CLOSE; } else p->rbody = mk(9000 + p->id, chance("d.pbig", 0.1) ? pick_log("d.psz", 1, 900000) : pick_log("d.psz", 0, 60000));
					if (p->framing == Plan::CHUNKED) p->http10 = false;
					if (p->fault == BF_HANG) p->fault = BF_TRUNC_FIN;
					if (chance("d.own", 0.15)) { q->own_enc = true; p->rh.push_back({"Content-Encoding", "x-own"}); }
					if (chance("d.betag", 0.4)) { q->betag = strf("\"tag-%d\"", p->id); p->rh.push_back({"ETag", q->betag}); }
					build_wire(p); if (p->piece > 0 && p->wire.size() / p->piece > 300) p->piece = p->wire.size() / 300 + 1;
					if (p->fault == BF_TRUNC_FIN || p->fault == BF_TRUNC_RST) p->cut = decide("d.cutend", 3) == 0 ? p->wire.size() - 1 - decide("d.cut1", std::min<size_t>(p->wire.size() - 1, 40)) : decide("d.cut", p->wire.size());
					h += strf("X-Plan: %d\r\n", p->id); for (auto &x : p->headers) h += x.k + ": " + x.v + "\r\n";
					q->head = r.head = p->head; r.tag = p->id; r.name = strf("plan %d", p->id);
					r.bytes = req(p->method, p->path + (p->query.empty() ? "" : "?" + p->query), h, "", q->http10 ? 0 : 1);
				} else {
					q->f = dfiles[decide("d.f", dfiles.size())]; r.head = q->head = chance("d.head", 0.12); int64_t n = q->f->data.size();
					if (!q->f->trunc && n > 0 && chance("d.range", 0.1)) { q->ra = decide("d.ra", n); q->rb = pick("d.rb", q->ra, n - 1); h += strf("Range: bytes=%lld-%lld\r\n", (long long)q->ra, (long long)q->rb); }
					else if (!q->f->trunc && chance("d.cond", 0.25)) r.aux2 = 1;
					r.name = q->f->path; r.bytes = req(q->head ? "HEAD" : "GET", q->f->path, h, "", q->http10 ? 0 : 1);
				}
				if (q->http10) r.expect_close = true;
				r.check = [q](Response &rs) { if (q->f) judge_file(*q, rs); else judge_plan(*q, rs); };
				k->reqs.push_back(r);
			}
			if (f && chance("d.abort", 0.1)) { k->abort_rx = pick_log("d.abrx", 1, 300000); k->abort_rst = chance("d.abrst", 0.5); }
			k->on_sent = [](Client *, Req &r) {
				Ask *q = (Ask *)r.aux; if (!r.aux2) return; r.aux2 = 0;
				if (q->f->tags.empty()) return;
				auto it = q->f->tags.begin(); std::advance(it, decide("d.tag", q->f->tags.size())); q->inm = it->second; if (chance("d.two", 0.2)) q->inm = "\"other\", " + q->inm;
				size_t e = r.bytes.find("\r\n\r\n"); r.bytes.insert(e, "\r\nIf-None-Match: " + q->inm);
			};
			k->on_end = [](Client *k) {
				stat_add("responses", k->got); nontrivial(k->got * 3 + k->depth);
				if (k->end == Client::DONE || k->end == Client::ABORTED) return;
				size_t i = k->got; if (i >= k->reqs.size()) return; if (i > 0 && k->saw_close) return;
				if (i > 0 && fails(*(Ask *)k->reqs[i - 1].aux)) return;
				for (size_t j = i; j < k->next && j < k->reqs.size(); ++j) if (fails(*(Ask *)k->reqs[j].aux)) { probe("visible_failure"); return; }
				violation("P17,P02,P05", "conn-broken", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end);
			};
			track(k); after(pick_log("d.start", 0, 1500) * MS, [k]() { k->start(listen_addr); });
		}
		if (f && dfiles[0]->trunc && dfiles[0]->data.size()) after(pick_log("d.tat", 1, 4000) * MS, []() { DFile *d = dfiles[0]; truncated = true; d->cut = decide("d.tn", d->data.size()); d->tags.clear(); vfs_put("/vfs/www" + d->path, d->data.substr(0, d->cut)); probe("file_truncated"); });
		EndOpts o; o.live_prop = "P17,P10,P02,P05";
		o.idle_cond = []() { return BackConn::open_now ? strf("%d backend connection(s) still open although no request is left", BackConn::open_now) : std::string(); };
		run_to_end(o);
	});
}
static ScenarioReg r1("deflate", deflate_setup);
