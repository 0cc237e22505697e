// mod_cache_disk_etag: concurrent misses and hits, disk faults, client aborts, failing backends, entry removal,
// process crashes at any file system operation and restart on the surviving files.
#include "backend.h"
#include <algorithm>
using namespace sim;
namespace {
const std::string ROOT = "/vfs/cache";
struct Res { std::string path, query; bool stat = false; std::vector<std::pair<int, size_t>> v; std::vector<std::pair<vtime, std::string>> hist; };   // v: content key, size
std::vector<Res *> rs; int mode, crash_at = -1, op_n, max_phase, leftover; bool root_is_file;
std::map<std::string, std::string> learned;      // path?query|etag|enc -> decoded content
std::set<std::string> tags_now;
std::string body_of(Res *r, int v) { return content(r->v[v].first, r->v[v].second); }
int count_files(const std::string &p) { Inode *n = vfs_lookup(p); if (!n) return 0; if (!n->dir) return 1; int c = 0; for (auto &k : vfs_list(p)) c += count_files(p + "/" + k); return c; }
std::vector<std::string> all_files(const std::string &p) { std::vector<std::string> o; Inode *n = vfs_lookup(p); if (!n) return o; if (!n->dir) { o.push_back(p); return o; } for (auto &k : vfs_list(p)) for (auto &x : all_files(p + "/" + k)) o.push_back(x); return o; }
std::string save() {
	std::string o = strf("%d %d %d %zu\n", mode, max_phase, (int)root_is_file, rs.size());
	for (auto *r : rs) { o += r->path + " " + (r->query.empty() ? "-" : r->query) + strf(" %d %zu", (int)r->stat, r->v.size()); for (auto &v : r->v) o += strf(" %d %zu", v.first, v.second); o += "\n"; }
	return o + "\n" + vfs_save("/vfs/www") + vfs_save(ROOT);
}
void load(const std::string &s) {
	size_t e = s.find("\n\n"); char *p = (char *)s.c_str(); int n, rf; size_t cnt; sscanf(p, "%d %d %d %zu%n", &mode, &max_phase, &rf, &cnt, &n); root_is_file = rf; p += n;
	for (size_t i = 0; i < cnt; ++i) {
		Res *r = new Res; char a[300], b[300]; int st; size_t nv; sscanf(p, "%299s %299s %d %zu%n", a, b, &st, &nv, &n); p += n; r->path = a; r->query = strcmp(b, "-") ? b : ""; r->stat = st;
		for (size_t j = 0; j < nv; ++j) { int k; size_t z; sscanf(p, "%d %zu%n", &k, &z, &n); p += n; r->v.push_back({k, z}); }
		rs.push_back(r);
	}
	vfs_load(s.substr(e + 2));
	for (auto *r : rs) if (r->stat) r->hist.push_back({0, vfs_get("/vfs/www" + r->path)});
}
struct Ask { Res *r; int v = -1; Plan *p = nullptr; const char *ae = nullptr; vtime sent = 0; int64_t ra = -1, rb = -1; };
bool eio_seen() { return faults[fault_id("disk_read_eio")].fired > 0; }
bool fails(const Ask &q) { return q.p && q.p->fault != BF_NONE || eio_seen(); }
bool truncated; std::set<std::string> created;
void judge(Ask &q, Response &r, bool head) {
	std::string ce = r.get("Content-Encoding"), tag = r.get("ETag"), w = strf("%s (version %d, Accept-Encoding %s)", q.r->path.c_str(), q.v, q.ae ? q.ae : "none");
	if (q.p) q.p->answered = true;
	if (q.p && !r.has("X-Plan-Id")) {
		if (r.status < 500) violation("P18,P05,P07", "status", "%s: status %d generated by the server", w.c_str(), r.status);
		if (!fails(q)) violation("P18,P05,P07", "request-failed", "%s: answered %d although the backend was fine", w.c_str(), r.status);
		return;
	}
	if (q.p && r.get("X-Plan-Id") != strf("%d", q.p->id)) violation("P18,P06", "cross-talk", "%s: response header of another request (plan %s)", w.c_str(), r.get("X-Plan-Id").c_str());
	if (q.ra >= 0) {      // a part of a file: of a version that existed, and never an entry of the cache
		auto &h = q.r->hist; bool ok = false;
		for (size_t i = 0; i < h.size(); ++i) {
			if (i + 1 < h.size() && h[i + 1].first < q.sent) continue; int64_t n = h[i].second.size(), e = std::min(q.rb, n - 1);
			if (r.status == 416) ok |= q.ra >= n;
			else if (r.status == 206) ok |= q.ra < n && r.get("Content-Range") == strf("bytes %lld-%lld/%lld", (long long)q.ra, (long long)e, (long long)n) && (head || h[i].second.compare(q.ra, e - q.ra + 1, r.body) == 0);
		}
		if (!ok) violation("P18,P16,P01", "range", "%s: bytes=%lld-%lld answered %d, Content-Range '%s', %zu bytes, which fit no version of the file", w.c_str(), (long long)q.ra, (long long)q.rb, r.status, r.get("Content-Range").c_str(), r.body.size());
		stat_add("ranges", 1); return;
	}
	int ws = q.p ? q.p->status : 200;
	if (r.status == 500 && eio_seen()) return;
	if (r.status != ws) violation("P18,P01,P05", "status", "%s: status %d instead of %d", w.c_str(), r.status, ws);
	if (head) return;
	std::string d = r.body;
	if (!ce.empty()) {
		if (!q.ae || !strstr(q.ae, ce.c_str())) violation("P17,P18", "not-accepted", "%s: Content-Encoding %s", w.c_str(), ce.c_str());
		if (!(ce == "gzip" ? gunzip(r.body, d, 0) : ce == "bzip2" ? bunzip(r.body, d) : gunzip(r.body, d, 1))) violation("P18,P17", "undecodable", "%s: complete %s body of %zu bytes does not decode", w.c_str(), ce.c_str(), r.body.size());
	}
	if (q.p) {
		std::string want = ws == 200 ? body_of(q.r, q.v) : q.p->rbody;
		if (d != want) {
			size_t i = 0; while (i < d.size() && i < want.size() && d[i] == want[i]) ++i; int other = -1;
			for (size_t j = 0; j < q.r->v.size(); ++j) if (body_of(q.r, j) == d) other = j;
			violation("P18,P05,P06", "wrong-entry", "%s: body of %zu bytes differs at %zu from the %zu bytes of this version (matches version %d, ETag %s, encoding '%s')", w.c_str(), d.size(), i, want.size(), other, tag.c_str(), ce.c_str());
		}
		stat_add("relayed", 1);
	} else {
		bool ok = false; auto &h = q.r->hist;
		for (size_t i = 0; i < h.size(); ++i) if ((i + 1 == h.size() || h[i + 1].first >= q.sent) && h[i].second == d) ok = true;
		if (!ok) violation("P18,P16,P01", "stale-or-partial", "%s: body of %zu bytes is no version of the file that existed during the request (ETag %s, encoding '%s')", w.c_str(), d.size(), tag.c_str(), ce.c_str());
		std::string key = q.r->path + "|" + tag + "|" + ce; auto it = learned.find(key);
		if (it == learned.end()) learned[key] = d; else if (it->second != d) violation("P18,P16", "etag-content", "%s: two different bodies (%zu and %zu bytes) under the ETag %s", w.c_str(), it->second.size(), d.size(), tag.c_str());
	}
	tags_now.insert(q.r->path + "|" + tag);
	if (r.body.size() && fails(q)) probe("hit_despite_backend_failure");
}
}
static void cache_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f);
	c.modules = {"mod_cache_disk_etag", "mod_deflate", "mod_proxy"}; vfs_mkdirs("/var/tmp");
	if (phase() == 0) {
		mode = decide("c.mode", 4); max_phase = f ? weighted("c.crashes", {2, 2, 1, 1}) : 0; root_is_file = chance("c.rootfile", 0.03);
		int n = 1 + decide("c.nres", 4);
		for (int i = 0; i < n; ++i) {
			Res *r = new Res; r->stat = mode != 0 && chance("c.stat", 0.3); r->path = r->stat ? strf("/s%d", i) : strf("/p/%sr%d", chance("c.dir", 0.3) ? "d/e/" : "", i);
			if (!r->stat && chance("c.q", 0.2)) r->query = strf("x=%d", i);
			int nv = r->stat ? 1 : 1 + decide("c.nv", 3); for (int v = 0; v < nv; ++v) r->v.push_back({7000 + i * 16 + v, (size_t)pick_log("c.size", 0, 120000)});
			if (r->stat) { std::string d = body_of(r, 0); vfs_put("/vfs/www" + r->path, d); r->hist.push_back({0, d}); }
			rs.push_back(r);
		}
		vfs_put("/vfs/www/probe", "probe-ok\n"); if (root_is_file) vfs_put(ROOT, "not a directory"); else if (chance("c.mkroot", 0.5)) vfs_mkdirs(ROOT);
	} else { load(saved_state()); leftover = count_files(ROOT); probe("restarted"); if (leftover) probe("restart_with_files"); }
	bool any_stat = false; for (auto *r : rs) any_stat |= r->stat;
	if (f) {
		static const double r[] = {0, 0, 0.01, 0.1}; set_fault("disk_short_write", r[decide("knob.dsw", 4)]); set_fault("disk_eintr", r[decide("knob.deintr", 3)]); set_fault("disk_enospc", r[decide("knob.enospc", 4)]);
		set_fault("disk_write_eio", r[decide("knob.dweio", 4)]); set_fault("mkstemp_err", r[decide("knob.mkst", 4)]); set_fault("rename_err", r[decide("knob.ren", 4)]); set_fault("disk_short_read", r[decide("knob.dsr", 4)]); set_fault("sendfile_einval", r[decide("knob.sfi", 3)]);
		set_fault("disk_slow", r[decide("knob.dslow", 3)]);
		if (chance("c.full", 0.08)) after(pick_log("c.fullat", 1, 4000) * MS, []() { probe("disk_full"); set_fault("disk_enospc", 1.0); });      // and it stays full
		if (phase() < max_phase) crash_at = pick_log("c.crashat", 1, 60);
	}
	add_backend(B_PROXY, "127.0.0.1:9001");
	std::string cache = "cache.disk.etag \"" + ROOT + "\";", defl = strf("deflate [ \"encodings\" => \"gzip,deflate,bzip2\", \"blocksize\" => %lld, \"output-buffer\" => %lld ];", (long long)pick_log("c.bs", 500, 30000), (long long)pick_log("c.ob", 64, 20000));
	std::string chain = mode == 0 ? cache : mode == 1 ? defl + " " + cache : mode == 2 ? cache + " " + defl : cache + " " + defl + " cache.disk.etag \"" + ROOT + "/second\";";
	c.actions = "keepalive.timeout 300;\ndocroot \"/vfs/www\";\n"; if (chance("knob.statsync", 0.3)) c.actions = "stat.async false;\n" + c.actions;
	c.actions += "if req.path =^ \"/p/\" { proxy \"127.0.0.1:9001\"; }\nstatic;\nif req.path != \"/probe\" { if req.is_handled { " + chain + " } }\n";
	write_config(c);
	vfs_observer = [](const std::string &op, const std::string &p) {
		if (p.compare(0, ROOT.size(), ROOT)) return;
		if (op == "create") created.insert(p);
		if (++op_n == crash_at) { tr("crash after %s %s", op.c_str(), p.c_str()); probe(("crash_" + op).c_str()); probe("crash"); request_restart(save()); }
	};
	when_listening([f, any_stat]() {
		if (f && chance("c.eio", 0.12)) set_fault("disk_read_eio", chance("c.eio2", 0.5) ? 0.03 : 0.2);
		if (f && !any_stat) { static const double r[] = {0, 0.02, 0.2}; set_fault("stat_err", r[decide("knob.stat", 3)]); set_fault("fstat_err", r[decide("knob.fstat", 3)]); set_fault("open_eio", r[decide("knob.oeio", 3)]); set_fault("open_emfile", r[decide("knob.oemf", 3)]); }
		int nc = 1 + decide("c.nc", 5);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P18,P02,P05"; k->depth = 1 + weighted("c.depth", {5, 1, 1});
			if (chance("c.slow", 0.25)) { k->pause_every = pick_log("c.pe", 500, 60000); k->pause_for = pick_log("c.pf", 1, 1500) * MS; }
			int nr = 2 + decide("c.reqs", 8);
			for (int j = 0; j < nr; ++j) {
				Ask *q = new Ask; Req r; q->r = rs[decide("c.r", rs.size())]; std::string h = "Host: h\r\n";
				static const char *ae[] = {nullptr, "gzip", "deflate", "bzip2", "gzip, deflate"}; q->ae = mode == 0 ? nullptr : ae[decide("c.ae", 5)]; if (q->ae) h += std::string("Accept-Encoding: ") + q->ae + "\r\n";
				r.think = chance("c.think", 0.4) ? pick_log("c.thinkms", 1, 2000) * MS : 0; r.aux = (int64_t)q; r.head = chance("c.head", 0.08);
				if (q->r->stat && chance("c.range", 0.2)) { int64_t n = q->r->hist.back().second.size() + 1; q->ra = decide("c.ra", n); q->rb = pick("c.rb", q->ra, n + 10); h += strf("Range: bytes=%lld-%lld\r\n", (long long)q->ra, (long long)q->rb); }
				if (!q->r->stat) {
					Plan *p = q->p = rand_plan(B_PROXY, f, 10); q->v = decide("c.v", q->r->v.size());
					p->path = q->r->path; p->query = q->r->query; p->method = r.head ? "HEAD" : "GET"; p->head = r.head; p->has_body = false; p->body.clear(); p->chunked = false; p->interim = false; p->status = 200; p->nobody = r.head;
					p->rbody = r.head ? "" : body_of(q->r, q->v); if (r.head) p->framing = Plan::CLOSE; if (p->framing == Plan::CHUNKED) p->http10 = false;
					if (p->fault == BF_HANG) p->fault = BF_TRUNC_FIN; if (p->framing == Plan::CLOSE) p->fault = BF_NONE;      // (a cut close-delimited body can not be told from a complete one)
					if (!r.head && chance("c.status", 0.12)) { static const int st[] = {201, 203, 206, 404, 500, 301}; p->status = st[decide("c.st", 6)]; p->rbody = content(7900 + p->id, 1 + decide("c.stsz", 3000)); if (p->status == 206) p->rh.push_back({"Content-Range", "bytes 0-9/10"}); }      // the tag of the resource on another response
					p->rh.push_back({"ETag", strf("\"k%dv%d\"", q->r->v[0].first % 100, q->v)}); build_wire(p); if (p->piece > 0 && p->wire.size() / p->piece > 200) p->piece = p->wire.size() / 200 + 1;
					if (p->fault == BF_TRUNC_FIN || p->fault == BF_TRUNC_RST) p->cut = decide("c.cutend", 3) == 0 ? p->wire.size() - 1 - decide("c.cut1", std::min<size_t>(p->wire.size() - 1, 40)) : decide("c.cut", p->wire.size());
					h += strf("X-Plan: %d\r\n", p->id); for (auto &x : p->headers) h += x.k + ": " + x.v + "\r\n"; r.tag = p->id;
				}
				r.name = q->r->path; r.bytes = req(r.head ? "HEAD" : "GET", q->r->path + (q->r->query.empty() ? "" : "?" + q->r->query), h); bool head = r.head;
				r.check = [q, head](Response &x) { judge(*q, x, head); };
				k->reqs.push_back(r);
			}
			if (f && chance("c.abort", 0.15)) { k->abort_rx = pick_log("c.abrx", 1, 200000); k->abort_rst = chance("c.abrst", 0.5); }
			k->on_sent = [](Client *, Req &r) { ((Ask *)r.aux)->sent = now(); };
			k->on_end = [](Client *k) {
				stat_add("responses", k->got); nontrivial(k->got * 3 + k->depth);
				if (k->end == Client::DONE || k->end == Client::ABORTED) return;
				size_t i = k->got; if (i >= k->reqs.size()) return; if (i > 0 && k->saw_close) return;
				if (i > 0 && fails(*(Ask *)k->reqs[i - 1].aux)) return;
				for (size_t j = i; j < k->next && j < k->reqs.size(); ++j) { Ask *q = (Ask *)k->reqs[j].aux; if (fails(*q) || (truncated && q->r->stat)) { probe("visible_failure"); return; } }
				violation("P18,P02,P05", "request-failed", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end);
			};
			track(k); after(pick_log("c.start", 0, 1500) * MS, [k]() { k->start(listen_addr); });
		}
		int nrm = decide("c.nrm", 4); for (int i = 0; i < nrm; ++i) after(pick_log("c.rmat", 1, 5000) * MS, []() { auto v = all_files(ROOT); if (v.size() && !root_is_file) { vfs_unlink(v[decide("c.rm", v.size())]); probe("entry_removed"); } });
		int nch = phase() == 0 ? decide("c.nch", 4) : 0;
		for (int i = 0; i < nch; ++i) after(pick_log("c.chat", 1, 5000) * MS, []() {
			std::vector<Res *> s; for (auto *r : rs) if (r->stat) s.push_back(r); if (s.empty()) return; Res *r = s[decide("c.chr", s.size())]; std::string d;
			if (chance("c.chtrunc", 0.3) && r->hist.back().second.size()) { truncated = true; d = r->hist.back().second.substr(0, decide("c.chn", r->hist.back().second.size())); vfs_put("/vfs/www" + r->path, d); probe("file_truncated"); }
			else { static int key = 8000; d = content(++key, pick_log("c.size", 0, 120000)); vfs_replace("/vfs/www" + r->path, d); }
			r->hist.push_back({now(), d});
		});
		EndOpts o; o.live_prop = "P18,P10,P02,P05";
		o.idle_cond = []() { return BackConn::open_now ? strf("%d backend connection(s) still open although no request is left", BackConn::open_now) : std::string(); };
		o.on_idle = []() {
			int n = count_files(ROOT); stat_add("entries", n - leftover > 0 ? n - leftover : 0);
			// every request that stored something has an ETag the clients or aborted clients asked for
			std::set<std::string> possible; for (auto *r : rs) { size_t nv = r->stat ? r->hist.size() : r->v.size(); for (size_t v = 0; v < nv; ++v) for (int e = 0; e < 4; ++e) for (int l = 0; l < 2; ++l) possible.insert(strf("%s %zu %d %d", r->path.c_str(), v, e, l)); }
			if (!root_is_file && n > leftover + (int)possible.size()) violation("P18,P09", "tempfile-leak", "%d files in the cache directory, at most %zu entries are possible", n, possible.size());
			// nothing is being written any more: temporary files of this run are gone
			if (!root_is_file) for (auto &p : created) if (vfs_lookup(p)) violation("P18,P09", "tempfile-leak", "temporary file %s left behind", p.c_str());
		};
		run_to_end(o);
	});
}
static ScenarioReg r1("cache", cache_setup);
