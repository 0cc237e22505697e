// Directory listings and static files while the tree changes.
#include "harness.h"
#include <algorithm>
using namespace sim;
namespace {
struct Ver { vtime from, to; bool exists = false, dir = false; size_t size = 0; int64_t mtime = 0; std::string data; };
struct Ent { std::string name; std::vector<Ver> v; };
struct Dir { std::string path; std::map<std::string, Ent> e; std::vector<Ver> v; };
std::vector<Dir *> dirs; double ttl; bool hide_dot = true, hide_tilde = true, hide_dirs = false, inc_header = false, hide_header = false, inc_readme = true, hide_readme = false, enc = true; std::string ex_suf, ex_pre; int key = 10; bool errs, open_intr, stat_errs; // open_intr: glib does not retry open() when interrupted, included texts may be missing
const vtime INF = (vtime)1 << 62;
void note(std::vector<Ver> &v, Ver n) { if (v.size()) v.back().to = now(); n.from = now(); n.to = INF; v.push_back(n); }
void put(Dir *d, const std::string &n, size_t size, bool sub) {
	Ent &e = d->e[n]; e.name = n; std::string p = "/vfs/www" + d->path + n; Ver x; x.exists = true; x.dir = sub;
	if (sub) { if (e.v.size() && e.v.back().exists) return; vfs_mkdirs(p); vfs_lookup("/vfs/www" + d->path)->mtime = now() + realtime_off; }
	else { x.data = n.find(".txt") == std::string::npos ? std::string(size, 'x') : strf("<p>&v%d;", ++key) + content(key, std::min<size_t>(size, 200)); if (n.find(".txt") != std::string::npos) for (auto &c : x.data) if ((unsigned char)c < 32 || (unsigned char)c > 126) c = 'z'; if (e.v.size() && e.v.back().exists && n.find(".txt") == std::string::npos && n != "x.bak" && decide("dl.how", 2)) vfs_put(p, x.data); else vfs_replace(p, x.data); x.size = x.data.size(); }
	Inode *i = vfs_lookup(p); x.mtime = i->mtime / SEC; note(e.v, x); tr("put %s%s size %lld", d->path.c_str(), n.c_str(), (long long)x.size);
}
void del(Dir *d, const std::string &n) { Ent &e = d->e[n]; if (e.v.empty() || !e.v.back().exists) return; vfs_unlink("/vfs/www" + d->path + n); note(e.v, Ver()); tr("del %s%s", d->path.c_str(), n.c_str()); }
const char *names[] = {"a.txt", "b b.bin", "c&d<e>.html", "q\"uote'", "p%41ct", "\xc3\xbcml", "#h?x", "z~", ".dot", "sub0", "HEADER.txt", "README.txt", "x.bak", "longname-longname-longname-longname-longname-longname-longname-longname-longname", "Zz+;=,@"};
bool is_sub(const std::string &n) { return n == "sub0"; }
void change() {
	Dir *d = dirs[decide("dl.d", dirs.size())];
	if (!d->v.back().exists || (d->path != "/" && chance("dl.whole", 0.08))) {
		if (d->path == "/") return;
		std::string p = "/vfs/www" + d->path.substr(0, d->path.size() - 1);
		if (d->v.back().exists) { for (auto &e : d->e) del(d, e.first); vfs_unlink(p); note(d->v, Ver()); tr("rmdir %s", d->path.c_str()); }
		else { vfs_mkdirs(p); Ver x; x.exists = x.dir = true; note(d->v, x); tr("mkdir %s", d->path.c_str()); }
		return;
	}
	std::string n = names[decide("dl.name", sizeof names / sizeof *names)];
	if (is_sub(n) && d->path == "/") return;
	if (chance("dl.del", 0.4)) del(d, n); else put(d, n, pick_log("dl.size", 0, 3000000), is_sub(n));
}
bool hidden(const std::string &n, bool dir) {
	if (hide_dot && n[0] == '.') return true; if (hide_tilde && n.back() == '~') return true;
	if (!ex_suf.empty() && n.size() >= ex_suf.size() && n.compare(n.size() - ex_suf.size(), ex_suf.size(), ex_suf) == 0) return true;
	if (!ex_pre.empty() && n.compare(0, ex_pre.size(), ex_pre) == 0) return true;
	if (dir && hide_dirs) return true; if (!dir && hide_header && n == "HEADER.txt") return true; if (!dir && hide_readme && n == "README.txt") return true;
	return false;
}
std::string unpct(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size()) { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; } else o += s[i]; return o; }
std::string unhtml(const std::string &s) { std::string o; for (size_t i = 0; i < s.size(); ++i) { if (s.compare(i, 3, "&#x") == 0) { size_t e = s.find(';', i); if (e != std::string::npos) { o += (char)strtol(s.substr(i + 3, e - i - 3).c_str(), nullptr, 16); i = e; continue; } } o += s[i]; } return o; }
void overlap(std::vector<Ver> &v, vtime a, vtime b, std::vector<Ver *> &o) { for (auto &x : v) if (x.from <= b && x.to >= a) o.push_back(&x); }
bool all_exist(std::vector<Ver *> &o, bool yes) { if (o.empty()) return !yes; for (auto *x : o) if (x->exists != yes) return false; return true; }
bool covered(std::vector<Ver> &v, vtime a) { return !v.empty() && v.front().from <= a; }
struct Kept { std::string tag; Response r; vtime a0, a1; }; vtime up_at;
std::map<Dir *, std::vector<Kept>> kept;
void check(Dir *d, Response &r, vtime sent, bool head, const std::string &inm = "", bool again = false);
// 304: the listing the client has must still be one that is allowed now
void check_kept(Dir *d, Response &r, vtime sent, const std::string &inm) {
	if (inm.empty()) violation("P24,P16", "bad-304", "%s: 304 for an unconditional request", d->path.c_str());
	for (auto &k : kept[d]) if (k.tag == inm) {
		// validators have a resolution of one second
		std::vector<vtime> c; for (auto &v : d->v) c.push_back(v.from); for (auto &e : d->e) for (auto &v : e.second.v) c.push_back(v.from); std::sort(c.begin(), c.end());
		for (size_t i = 1; i < c.size(); ++i) if (c[i] >= k.a0 && c[i - 1] <= k.a1 && (c[i] + realtime_off) / SEC == (c[i - 1] + realtime_off) / SEC) { stat_add("r304_ambiguous", 1); return; }
		stat_add("r304", 1); check(d, k.r, sent, false, "", true); return;
	}
	violation("P24,P16", "bad-304", "%s: 304 for the unknown ETag %s", d->path.c_str(), inm.c_str());
}
void check(Dir *d, Response &r, vtime sent, bool head, const std::string &inm, bool again) {
	if (r.status == 304 && !again) { check_kept(d, r, sent, inm); return; }
	std::string cls = again ? "304-" : "";
	vtime slack = 300 * MS + stalled_total + slow_total, w0 = sent - (vtime)(ttl * SEC) - slack, w1 = now(); std::vector<Ver *> dv; overlap(d->v, w0, w1, dv);
	bool dir_all = all_exist(dv, true), dir_none = all_exist(dv, false);
	if (r.status == 404) { if (dir_all && !errs) violation("P24", (cls + "dir-missing").c_str(), "%s: 404 although the directory existed for longer than the cache lifetime", d->path.c_str()); stat_add("r404", 1); return; }
	if (r.status != 200) { if (errs && (r.status == 500 || r.status == 403)) return; violation("P24", (cls + "status").c_str(), "%s: status %d", d->path.c_str(), r.status); }
	if (dir_none) violation("P24", (cls + "dir-stale").c_str(), "%s: listed although the directory was gone for longer than the cache lifetime", d->path.c_str());
	if (head) return;
	if (!again) { stat_add("listings", 1); if (!r.get("ETag").empty()) kept[d].push_back({r.get("ETag"), r, std::max(w0, up_at), w1}); }
	std::map<std::string, int> seen; size_t p = 0; const std::string &b = r.body;
	while ((p = b.find("<tr group=\"", p)) != std::string::npos) {
		char g = b[p + 11]; size_t e = b.find("</tr>", p); if (e == std::string::npos) violation("P24", (cls + "html").c_str(), "%s: truncated listing", d->path.c_str());
		std::string row = b.substr(p, e - p); p = e; if (g != '1' && g != '2') continue;
		auto cut = [&](const char *a, const char *z, size_t &at) { size_t i = row.find(a, at); if (i == std::string::npos) violation("P24", (cls + "html").c_str(), "%s: bad row %s", d->path.c_str(), row.c_str()); i += strlen(a); size_t j = row.find(z, i); if (j == std::string::npos) violation("P24", (cls + "html").c_str(), "%s: bad row %s", d->path.c_str(), row.c_str()); at = j; return row.substr(i, j - i); };
		size_t at = 0; std::string href = unpct(cut("<a href=\"", "\"", at)), nm = unhtml(cut(">", "</a>", at)); int64_t mt = atoll(cut("class=\"modified\" val=\"", "\"", at).c_str()), sz = atoll(cut("class=\"size\" val=\"", "\"", at).c_str());
		if (g == '1') { if (href.empty() || href.back() != '/') violation("P24", (cls + "href").c_str(), "%s: link of directory is '%s'", d->path.c_str(), href.c_str()); href.pop_back(); }
		if (href != nm) violation("P24", (cls + "href").c_str(), "%s: entry '%s' links to '%s'", d->path.c_str(), nm.c_str(), href.c_str());
		if (seen[nm]++) violation("P24", (cls + "twice").c_str(), "%s: entry '%s' is listed twice", d->path.c_str(), nm.c_str());
		if (hidden(nm, g == '1')) violation("P24", (cls + "hidden").c_str(), "%s: hidden entry '%s' is listed", d->path.c_str(), nm.c_str());
		auto it = d->e.find(nm); if (it == d->e.end()) { bool sub = false; for (auto *o : dirs) if (o != d && o->path == d->path + nm + "/") sub = true; if (sub) continue; violation("P24", (cls + "invented").c_str(), "%s: entry '%s' never existed", d->path.c_str(), nm.c_str()); }
		std::vector<Ver *> o; overlap(it->second.v, w0, w1, o); bool ok = false, any = false;
		for (auto *x : o) if (x->exists) { any = true; if (x->dir == (g == '1') && (x->dir || ((int64_t)x->size == sz)) && (x->dir || x->mtime == mt)) ok = true; }
		if (!any) violation("P24", (cls + "stale").c_str(), "%s: entry '%s' is listed although it was gone for longer than the cache lifetime (%.3g s)", d->path.c_str(), nm.c_str(), ttl);
		if (!ok) violation("P24", (cls + "attributes").c_str(), "%s: entry '%s' listed with size %lld mtime %lld which it did not have within the cache lifetime", d->path.c_str(), nm.c_str(), (long long)sz, (long long)mt);
	}
	if (!stat_errs && dir_all) for (auto &x : d->e) {   // (an entry that cannot be examined is left out; any other error must not give an incomplete listing)
		std::vector<Ver *> o; overlap(x.second.v, w0, w1, o); if (!covered(x.second.v, w0) || !all_exist(o, true) || hidden(x.first, o[0]->dir)) continue;
		if (!seen.count(x.first)) violation("P24", (cls + "missing").c_str(), "%s: entry '%s' existed during the whole request (and cache lifetime) but is not listed", d->path.c_str(), x.first.c_str());
	}
	// included texts are read at the time of the request
	auto inc = [&](const char *n, bool on) {
		auto it = d->e.find(n); std::vector<Ver *> o; if (it != d->e.end()) overlap(it->second.v, again ? w0 : sent, w1, o); bool found = false, poss = false, must = !o.empty() && covered(it->second.v, again ? w0 : sent);
		for (auto *x : o) { if (!x->exists || x->size > 64 * 1024) { must = false; continue; } poss = true; if (b.find(x->data) != std::string::npos || unhtml(b).find("<pre>" + x->data + "</pre>") != std::string::npos) found = true; }
		if (on && must && !found && !errs && !open_intr && o.size() == 1) violation("P24", (cls + "include").c_str(), "%s: %s is not included", d->path.c_str(), n);
		if (!on && found && poss) violation("P24", (cls + "include-off").c_str(), "%s: %s is included although this is switched off", d->path.c_str(), n);
	};
	inc("HEADER.txt", inc_header); inc("README.txt", inc_readme);
}
}
static std::map<vtime *, std::pair<Dir *, std::string *>> want_inm;
static void dirlist_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); c.modules = {"mod_dirlist"};
	static const double ts[] = {10, 1, 2, 3, 30, 0}; ttl = ts[decide("dl.ttl", 6)]; c.stat_ttl = ttl == 10 && decide("dl.def", 2) ? -1 : ttl;
	std::string opt; auto b = [&](const char *n, bool def, bool &v) { v = def; if (chance("dl.opt", 0.3)) { v = decide("dl.optv", 2); opt += strf("%s\"%s\" => %s", opt.empty() ? "" : ", ", n, v ? "true" : "false"); } };
	b("hide-dotfiles", true, hide_dot); b("hide-tildefiles", true, hide_tilde); b("hide-directories", false, hide_dirs); b("include-header", false, inc_header); b("hide-header", false, hide_header); b("include-readme", true, inc_readme); b("hide-readme", false, hide_readme); bool e1, e2; b("encode-header", true, e1); b("encode-readme", true, e2);
	if (chance("dl.suf", 0.2)) { ex_suf = ".bak"; opt += std::string(opt.empty() ? "" : ", ") + "\"exclude-suffix\" => [\".bak\"]"; } if (chance("dl.pre", 0.2)) { ex_pre = "long"; opt += std::string(opt.empty() ? "" : ", ") + "\"exclude-prefix\" => [\"long\"]"; }
	// a list with a single pair would be taken as the pair itself
	c.actions = "keepalive.timeout 300;\ndocroot \"/vfs/www\";\nif req.path == \"/probe\" { static; } else { " + std::string(opt.empty() ? "dirlist;" : "dirlist [" + opt + "];") + " if not req.is_handled { static; } }\n"; if (chance("dl.sync", 0.2)) c.actions = "stat.async false;\n" + c.actions;
	vfs_put("/vfs/www/probe", "probe-ok\n"); int nd = 1 + decide("dl.nd", 3);
	for (int i = 0; i < nd; ++i) { Dir *d = new Dir; d->path = strf("/d%d/", i); vfs_mkdirs("/vfs/www" + d->path.substr(0, d->path.size() - 1)); Ver x; x.exists = x.dir = true; note(d->v, x); dirs.push_back(d); int n = decide("dl.init", 12); for (int j = 0; j < n; ++j) { std::string nm = names[decide("dl.name", sizeof names / sizeof *names)]; put(d, nm, pick_log("dl.size", 0, 3000000), is_sub(nm)); } }
	write_config(c);
	when_listening([f]() {
		up_at = now();
		if (f && chance("dl.errs", 0.3)) { static const double r[] = {0, 0, 0.02, 0.2}; const char *k[] = {"stat_err", "readdir_err", "open_emfile", "open_eintr", "fstat_err"}; for (auto *n : k) { double x = r[decide("dl.rate", 4)]; set_fault(n, x); if (x > 0 && !strcmp(n, "open_eintr")) open_intr = true; else if (x > 0) errs = true; if (x > 0 && !strcmp(n, "stat_err")) stat_errs = true; } }
		if (f && chance("dl.slow", 0.3)) set_fault("disk_slow", 0.05);
		int nch = decide("dl.nch", 60); vtime span = pick_log("dl.span", 50, 60000) * MS;
		for (int i = 0; i < nch; ++i) after((vtime)(span * (decide("dl.ct", 1000) / 1000.0)), change);
		int nc = 1 + decide("dl.nc", 6);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P24,P02"; int nr = 1 + decide("dl.nr", 12); if (chance("dl.burst", 0.2)) k->depth = 3;
			for (int j = 0; j < nr; ++j) {
				Dir *d = dirs[decide("dl.d", dirs.size())]; Req q; q.think = chance("dl.think", 0.6) ? pick_log("dl.thinkms", 1, std::max<int64_t>(2, span / MS / nr * 2)) * MS : 0; vtime *sent = new vtime(0); q.aux = (int64_t)(intptr_t)sent;
				if (chance("dl.noslash", 0.1)) {
					q.name = "noslash"; std::string p = d->path.substr(0, d->path.size() - 1); q.bytes = req("GET", p, "Host: h\r\n");
					q.check = [d, sent, p](Response &r) { vtime w0 = *sent - (vtime)(ttl * SEC) - 300 * MS - stalled_total - slow_total; std::vector<Ver *> o; overlap(d->v, w0, now(), o); if (errs) return; if (r.status != 301 && r.status != 404) violation("P24", "redirect", "%s: status %d", p.c_str(), r.status); if (r.status == 301 && r.get("Location").find(p + "/") == std::string::npos) violation("P24", "redirect", "%s: redirected to '%s'", p.c_str(), r.get("Location").c_str()); if (r.status == 404 && all_exist(o, true)) violation("P24", "redirect", "%s: 404 although the directory exists", p.c_str()); if (r.status == 301 && all_exist(o, false)) violation("P24", "redirect", "%s: redirected although the directory is gone", p.c_str()); };
				} else if (chance("dl.file", 0.25)) {
					static const char *fn[] = {"a.txt", "x.bak", "README.txt"}; std::string n = fn[decide("dl.fn", 3)]; q.name = "file"; q.bytes = req("GET", d->path + n, "Host: h\r\n");
					q.check = [d, n, sent](Response &r) {
						std::vector<Ver *> o; auto it = d->e.find(n); if (it != d->e.end()) overlap(it->second.v, *sent, now(), o); if (errs && (r.status == 500 || r.status == 403 || r.status == 404)) return;
						bool ex = false, no = it == d->e.end() || !covered(it->second.v, *sent); for (auto *x : o) if (x->exists) { if (r.status == 200 && r.body == x->data) return; ex = true; } else no = true;
						if (r.status == 404) { if (!no) violation("P24,P01", "file-missing", "%s%s: 404 although the file exists", d->path.c_str(), n.c_str()); return; }
						if (r.status == 200 && !ex) violation("P24,P16", "file-stale", "%s%s: served although it does not exist", d->path.c_str(), n.c_str());
						if (r.status == 200 && o.size() == 1) violation("P24,P01,P16", "file-content", "%s%s: content is not the current version", d->path.c_str(), n.c_str());
						if (r.status != 200) violation("P24,P01", "file-status", "%s%s: status %d", d->path.c_str(), n.c_str(), r.status);
					};
				} else { bool head = chance("dl.head", 0.1); q.head = head; q.name = "list " + d->path; q.bytes = req(head ? "HEAD" : "GET", d->path, "Host: h\r\n"); std::string *inm = new std::string; q.check = [d, sent, head, inm](Response &r) { check(d, r, *sent, head, *inm); }; if (!head && chance("dl.cond", 0.3)) want_inm[sent] = {d, inm}; }
				k->reqs.push_back(q);
			}
			k->on_sent = [](Client *, Req &q) {
				vtime *sent = (vtime *)(intptr_t)q.aux; *sent = now(); auto w = want_inm.find(sent); if (w == want_inm.end()) return;
				auto &ks = kept[w->second.first]; std::string *inm = w->second.second; if (ks.empty() || !inm->empty()) return;
				*inm = ks[chance("dl.lasttag", 0.7) ? ks.size() - 1 : decide("dl.tag", ks.size())].tag; q.bytes.insert(q.bytes.find("\r\n\r\n"), "\r\nIf-None-Match: " + *inm); probe("conditional");
			};
			if (f && chance("dl.abort", 0.15)) { k->abort_at = pick_log("dl.abat", 1, 20000) * MS; k->abort_rst = chance("dl.abrst", 0.5); }
			k->on_end = [](Client *k) { stat_add("responses", k->got); nontrivial(k->got * 3 + k->depth); if (k->end == Client::DONE || k->end == Client::ABORTED) return; if (k->got && k->saw_close) return; violation("P24,P02", "conn-broken", "%s: connection ended with state %d", k->desc().c_str(), (int)k->end); };
			track(k); after((vtime)(span * (decide("dl.st", 1000) / 1000.0)), [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P24,P10,P02"; run_to_end(o);
	});
}
static ScenarioReg r1("dirlist", dirlist_setup);
