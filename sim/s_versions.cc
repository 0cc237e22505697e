// Static files that change while they are served: every answer (200, 206, 304, 416, 404) is consistent with one version
// that existed during the request; ranges deliver exactly the requested bytes; truncation aborts.
#include "harness.h"
#include <algorithm>
using namespace sim;
namespace {
struct Ver { vtime from, to; bool exists; std::string data; uint64_t ino; int64_t mtime; std::string etag; };
struct VFile { std::string path; std::vector<Ver> v; bool trunc = false; };
std::vector<VFile *> files;
uint32_t mut(const std::string &s) { uint32_t h = 0; for (char c : s) h = (h << 5) ^ (h >> 27) ^ c; return h; }
std::string etag_str(const Ver &v) { return strf("%lld-%zu-%lld", (long long)v.ino, v.data.size(), (long long)v.mtime); }
std::string httpdate(int64_t t) { time_t x = t; struct tm tm; gmtime_r(&x, &tm); char b[64]; strftime(b, sizeof b, "%a, %d %b %Y %H:%M:%S GMT", &tm); return b; }
int key = 1000;
void put(VFile *f, size_t size, int how) {      // how 0: replace (new inode), 1: remove, 2: truncate in place
	std::string p = "/vfs/www" + f->path; if (f->v.size()) f->v.back().to = now();
	Ver n; n.from = now(); n.to = (vtime)1 << 62; n.exists = how != 1;
	if (how == 0) { n.data = content(++key, size); vfs_replace(p, n.data); }
	else if (how == 1) vfs_unlink(p);
	else { n.data = f->v.back().data.substr(0, size); vfs_put(p, n.data); }
	Inode *i = vfs_lookup(p); if (i) { n.ino = i->ino; n.mtime = i->mtime / SEC; }
	f->v.push_back(n);
}
struct Spec { bool any = false; int64_t a = -1, b = -1; };       // a-b, a-, -b
struct Ask { VFile *f; bool head; std::string range; std::vector<Spec> specs; bool strict = true; std::string inm; int64_t ims = -1; vtime sent = 0; std::string id; };
typedef std::pair<int64_t, int64_t> R;
std::vector<R> resolve(const Ask &q, int64_t size) {
	std::vector<R> o;
	for (auto &s : q.specs) {
		int64_t a, b;
		if (s.a < 0) { if (s.b == 0) continue; a = std::max<int64_t>(0, size - s.b); b = size - 1; } else { a = s.a; b = s.b < 0 ? size - 1 : std::min(s.b, size - 1); }
		if (a > b || a >= size) continue;
		o.push_back({a, b});
	}
	return o;
}
// parse the parts of a 206; returns an error text
std::string parts(const Response &r, bool head, std::vector<std::pair<R, std::string>> &out, int64_t &total) {
	std::string ct = r.get("Content-Type");
	auto cr = [&](const std::string &v, R &rr) { long long a, b, t; int n = 0; if (sscanf(v.c_str(), "bytes %lld-%lld/%lld%n", &a, &b, &t, &n) != 3 || n != (int)v.size()) return false; rr = {a, b}; total = t; return true; };
	if (ct.find("multipart/byteranges") == std::string::npos) {
		R rr; if (!cr(r.get("Content-Range"), rr)) return "206 without a valid Content-Range: '" + r.get("Content-Range") + "'";
		out.push_back({rr, r.body}); return "";
	}
	if (head) return "";
	size_t q = ct.find("boundary="); if (q == std::string::npos) return "no boundary in " + ct;
	std::string bd = "\r\n--" + ct.substr(q + 9); const std::string &b = r.body; size_t p = 0; int64_t t0 = -1;
	if (b.compare(0, bd.size(), bd)) return "multipart body does not start with the boundary";
	while (1) {
		p += bd.size(); if (b.compare(p, 4, "--\r\n") == 0) return p + 4 == b.size() ? "" : "data after the last boundary";
		if (b.compare(p, 2, "\r\n")) return "bad boundary line";
		size_t e = b.find("\r\n\r\n", p); if (e == std::string::npos) return "part without header end";
		std::string h = b.substr(p + 2, e - p - 2); size_t c = h.find("Content-Range: "); if (c == std::string::npos) return "part without Content-Range";
		R rr; std::string v = h.substr(c + 15, h.find("\r\n", c) == std::string::npos ? std::string::npos : h.find("\r\n", c) - c - 15);
		if (!cr(v, rr)) return "bad Content-Range in part: " + v;
		if (t0 >= 0 && t0 != total) return "parts disagree on the size"; t0 = total;
		size_t len = rr.second - rr.first + 1; if (e + 4 + len + bd.size() > b.size()) return "part longer than the body";
		out.push_back({rr, b.substr(e + 4, len)}); p = e + 4 + len;
		if (b.compare(p, bd.size(), bd)) return "part is not followed by a boundary";
	}
}
void learn(VFile *f, Ver &v, const std::string &tag, const char *what) {
	if (tag.empty()) violation("P16", "no-etag", "%s: %d response without ETag", f->path.c_str(), 200);
	if (v.etag.empty()) {
		for (auto &o : f->v) if (&o != &v && o.etag == tag && o.data != v.data && mut(etag_str(o)) != mut(etag_str(v))) violation("P16", "etag-shared", "%s: two different versions (%zu and %zu bytes) have the same ETag %s (%s)", f->path.c_str(), o.data.size(), v.data.size(), tag.c_str(), what);
		v.etag = tag;
	} else if (v.etag != tag) violation("P16", "etag-unstable", "%s: the same version was sent with ETag %s and %s", f->path.c_str(), v.etag.c_str(), tag.c_str());
}
std::string show(const Ask &q) { return strf("%s %s%s%s%s%s", q.head ? "HEAD" : "GET", q.f->path.c_str(), q.range.empty() ? "" : " Range: ", q.range.c_str(), q.inm.empty() ? "" : " If-None-Match: ", q.inm.c_str()) + (q.ims >= 0 ? " If-Modified-Since: " + httpdate(q.ims) : ""); }
std::string match(Ask &q, Response &r, Ver &v, bool only) {   // "" : consistent with v
	std::string tag = r.get("ETag");
	if (!v.exists) return r.status == 404 ? "" : strf("status %d for a missing file", r.status);
	if (r.status == 404) return "404 although the file exists";
	bool inm_hit = !q.inm.empty() && !tag.empty() && q.inm.find(tag) != std::string::npos, ims_hit = q.ims >= 0 && v.mtime <= q.ims;
	if (!tag.empty() && !v.etag.empty() && v.etag != tag) return "ETag " + tag + " instead of " + v.etag;
	if (r.status == 304) {
		if (q.inm.empty() && q.ims < 0) return "304 without a condition";
		if (!q.inm.empty() && !inm_hit) return "304 although the ETag is not in If-None-Match";
		if (!q.inm.empty() && v.etag.empty() && mut(etag_str(v)) != 0 && only) {   // the client holds the validator of an older version
			for (auto &o : q.f->v) if (o.exists && !o.etag.empty() && o.data != v.data && o.etag == tag && mut(etag_str(o)) != mut(etag_str(v))) return "304 for the ETag of a different version";
		}
		if (q.inm.empty() && !ims_hit) return "304 although the file is newer than If-Modified-Since";
		return "";
	}
	if (only) {
		if (!q.inm.empty() && !v.etag.empty() && q.inm.find(v.etag) != std::string::npos && (q.ims < 0 || ims_hit)) return strf("status %d although If-None-Match has the current ETag", r.status);
		if (q.inm.empty() && ims_hit) return strf("status %d although the file is not newer than If-Modified-Since", r.status);
	}
	if (r.status != 416 && tag.empty()) return "no ETag";
	std::string lm = r.get("Last-Modified"); if (r.status != 416 && lm != httpdate(v.mtime)) return "Last-Modified " + lm + " instead of " + httpdate(v.mtime);
	int64_t size = v.data.size(); auto want = resolve(q, size);
	if (r.status == 200) {
		if (!q.range.empty() && q.strict && !want.empty()) return "200 although the range is valid";
		if (!q.range.empty() && q.strict && want.empty()) return "200 although the range is unsatisfiable";
		if (!q.head && r.body != v.data) return "body differs";
		if (q.head && r.clen >= 0 && r.clen != size) return "HEAD length differs";
		if (r.has("Content-Range")) return "200 with Content-Range";
		return "";
	}
	if (r.status == 416) {
		if (q.range.empty()) return "416 without Range";
		if (q.strict && !want.empty()) return "416 although a range is satisfiable";
		if (r.get("Content-Range") != strf("bytes */%lld", (long long)size)) return "416 with Content-Range '" + r.get("Content-Range") + "'";
		return "";
	}
	if (r.status == 206) {
		if (q.range.empty()) return "206 without Range";
		std::vector<std::pair<R, std::string>> ps; int64_t total = -1; std::string e = parts(r, q.head, ps, total); if (!e.empty()) return e;
		if (q.head) return "";
		if (total != size) return strf("Content-Range names size %lld instead of %lld", (long long)total, (long long)size);
		for (auto &p : ps) {
			if (p.first.first < 0 || p.first.first > p.first.second || p.first.second >= size) return strf("impossible range %lld-%lld/%lld", (long long)p.first.first, (long long)p.first.second, (long long)size);
			if (v.data.compare(p.first.first, p.first.second - p.first.first + 1, p.second) || p.second.size() != (size_t)(p.first.second - p.first.first + 1)) return strf("bytes of range %lld-%lld differ", (long long)p.first.first, (long long)p.first.second);
		}
		if (q.strict) {
			if (ps.size() != want.size()) return strf("%zu part(s) instead of %zu", ps.size(), want.size());
			for (size_t i = 0; i < ps.size(); ++i) if (ps[i].first != want[i]) return strf("part %zu is %lld-%lld instead of %lld-%lld", i, (long long)ps[i].first.first, (long long)ps[i].first.second, (long long)want[i].first, (long long)want[i].second);
		}
		return "";
	}
	return strf("status %d", r.status);
}
void judge(Ask &q, Response &r) {
	std::string why; Ver *hit = nullptr; int cand = 0;
	for (auto &v : q.f->v) if (v.to >= q.sent) ++cand;
	for (auto &v : q.f->v) if (v.to >= q.sent) { std::string e = match(q, r, v, cand == 1); if (e.empty()) hit = &v; else why += "; version of " + (v.exists ? strf("%zu bytes", v.data.size()) : "no file") + ": " + e; }
	if (!hit) violation("P16,P01", "inconsistent", "%s: answer %d (%zu bytes) fits none of the %d version(s) that existed during the request%s", show(q).c_str(), r.status, r.body.size(), cand, why.c_str());
	if (cand > 1) probe("changed_during_request");
	if (r.status == 206) probe(r.get("Content-Type").find("multipart") != std::string::npos ? "multipart" : "single_range"); if (r.status == 304) probe("not_modified"); if (r.status == 416) probe("unsatisfiable");
	if ((r.status == 200 || r.status == 206) && hit->exists && !q.head && r.body.size() > 20 && cand == 1) learn(q.f, *hit, r.get("ETag"), show(q).c_str());
}
std::string rand_range(Ask &q, int64_t size) {
	int n = 1 + weighted("v.nr", {5, 2, 1, 1}); std::string s = "bytes="; q.strict = true;
	auto num = [&]() -> int64_t { switch (decide("v.num", 6)) { case 0: return 0; case 1: return size ? size - 1 : 0; case 2: return size; case 3: return size + pick_log("v.over", 0, 1000000); case 4: return chance("v.huge", 0.3) ? 9223372036854775800LL / 100 : size / 2; default: return pick("v.at", 0, size > 0 ? size : 1); } };
	for (int i = 0; i < n; ++i) {
		if (i) s += chance("v.ws", 0.2) ? " , " : ",";
		Spec p; int k = decide("v.kind", 4);
		if (k < 2) { p.a = num(); p.b = num(); if (p.a > p.b) { if (chance("v.rev", 0.15)) q.strict = false; else std::swap(p.a, p.b); } s += strf("%lld-%lld", (long long)p.a, (long long)p.b); }
		else if (k == 2) { p.a = num(); s += strf("%lld-", (long long)p.a); }
		else { p.b = num(); s += strf("-%lld", (long long)p.b); }
		q.specs.push_back(p);
	}
	if (chance("v.bad", 0.06)) { static const char *bad[] = {"bytes=", "bytes=-", "bytes=a-b", "octets=0-1", "bytes 0-1", "bytes=1-2x", "bytes=99999999999999999999999-", "bytes=,", "bytes=5"}; s = bad[decide("v.badi", 9)]; q.strict = false; q.specs.clear(); }
	else if (chance("v.tail", 0.06)) { static const char *t[] = {",x", ",5", ",a-b", ",1-2x", ",9-1", " ,0-1 1-2", ";q"}; s += t[decide("v.taili", 7)]; q.strict = false; }      // valid up to here
	return s;
}
}
static void versions_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	if (!cfg.faults_off) { static const double r[] = {0, 0, 0.01, 0.1}; set_fault("sendfile_einval", r[decide("knob.sfinval", 4)]); set_fault("disk_short_read", r[decide("knob.dshort", 4)]); set_fault("disk_eintr", r[decide("knob.deintr", 3)]); }
	c.actions = "keepalive.timeout 120;\ndocroot \"/vfs/www\";\n"; if (chance("knob.statsync", 0.3)) c.actions = "stat.async false;\n" + c.actions;
	int nf = 1 + decide("v.nf", 3);
	for (int i = 0; i < nf; ++i) { VFile *f = new VFile; f->path = strf("/v%d", i); f->trunc = i < 2 && chance("v.trunc", 0.4); files.push_back(f); put(f, pick_log("v.size", 0, f->trunc ? 900000 : 300000), 0); }
	vfs_put("/vfs/www/probe", "probe-ok\n");
	write_config(c);
	when_listening([]() {
		int nc = 1 + decide("v.nc", 5); vtime span = pick_log("v.span", 10, 20000); static bool truncated;
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->malformed_prop = "P16,P02"; k->link = rand_link(); k->depth = 1 + weighted("v.depth", {5, 1, 1});
			if (chance("v.slow", 0.3)) { k->pause_every = pick_log("v.pe", 2000, 60000); k->pause_for = pick_log("v.pf", 1, 2000) * MS; }
			int nr = 2 + decide("v.reqs", 10); bool has_trunc = false;
			for (int j = 0; j < nr; ++j) {
				Ask *q = new Ask; q->f = files[decide("v.f", files.size())]; if (q->f->trunc) has_trunc = true;
				q->head = chance("v.head", 0.1); int64_t size = q->f->v.back().data.size();
				if (chance("v.range", 0.5)) q->range = rand_range(*q, size);
				Req r; r.head = q->head; r.think = chance("v.think", 0.5) ? pick_log("v.thinkms", 1, span / 2 + 1) * MS : 0; r.aux = (int64_t)q;
				int cond = weighted("v.cond", {4, 2, 1, 1});
				if (cond) r.aux2 = cond; r.name = q->f->path; r.bytes = "?";
				r.check = [q](Response &rs) { judge(*q, rs); };
				// conditions are filled in when the request is sent
				if (cond == 0) r.bytes = req(q->head ? "HEAD" : "GET", q->f->path, "Host: h\r\n" + (q->range.empty() ? "" : "Range: " + q->range + "\r\n"));
				k->reqs.push_back(r);
			}
			k->on_sent = [](Client *, Req &r) {
				Ask *q = (Ask *)r.aux; q->sent = now(); if (!r.aux2) return;
				std::vector<Ver *> known; for (auto &v : q->f->v) if (!v.etag.empty()) known.push_back(&v);
				std::string h = "Host: h\r\n" + (q->range.empty() ? "" : "Range: " + q->range + "\r\n");
				if (r.aux2 != 2) {
					Ver *v = known.empty() ? nullptr : known[decide("v.known", known.size())];
					q->inm = v ? v->etag : "\"none\""; if (chance("v.two", 0.2)) q->inm = "\"other\", " + q->inm;
					h += "If-None-Match: " + q->inm + "\r\n";
				}
				if (r.aux2 != 1) {
					std::vector<int64_t> ts; for (auto &v : q->f->v) if (v.exists) ts.push_back(v.mtime);
					if (ts.size()) { q->ims = ts[decide("v.ims", ts.size())] + (int64_t)pick("v.imsd", 0, 2) - 1; h += "If-Modified-Since: " + httpdate(q->ims) + "\r\n"; }
				}
				r.bytes = req(q->head ? "HEAD" : "GET", q->f->path, h);
			};
			k->on_end = [has_trunc](Client *k) {
				stat_add("responses", k->got); nontrivial(k->got);
				if (k->end == Client::DONE) return;
				if (truncated && k->got < k->reqs.size() && has_trunc) { bool t = false; for (size_t i = k->got; i < k->next; ++i) t |= ((Ask *)k->reqs[i].aux)->f->trunc; if (t) { probe("truncated_aborted"); return; } }
				violation("P16,P02", "conn-broken", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end);
			};
			track(k); after(pick_log("v.start", 0, 1000) * MS, [k]() { k->start(listen_addr); });
		}
		int nch = decide("v.changes", 12);
		for (int i = 0; i < nch; ++i) after(pick("v.when", 0, span) * MS, []() {
			VFile *f = files[decide("v.cf", files.size())];
			if (f->trunc) { if (truncated || !chance("v.dotrunc", 0.7)) return; truncated = true; size_t n = f->v.back().data.size(); put(f, n ? decide("v.tsz", n) : 0, 2); return; }
			if (chance("v.rm", 0.15)) put(f, 0, 1); else put(f, pick_log("v.size", 0, 300000), 0);
		});
		EndOpts o; o.live_prop = "P16,P10,P02"; run_to_end(o);
	});
}
static ScenarioReg r1("versions", versions_setup);
