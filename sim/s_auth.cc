// mod_auth: password files that change, break and vanish while requests with all kinds of credentials come in.
#include "harness.h"
#include "authtab.h"
#include <algorithm>
#include <set>
using namespace sim;
namespace {
const vtime INF = (vtime)1 << 62;
const int NP = sizeof PW / sizeof *PW, NU = sizeof UN / sizeof *UN;
struct Ver { vtime from, to; bool exists; std::string text; };
struct Span { vtime sent, done; };
struct AF { int id, kind, realm; double ttl; std::string path, pre; std::vector<Ver> v; std::vector<Span> reqs; }; // kind 0 plain 1 htpasswd 2 htdigest
std::vector<AF *> files; std::vector<std::pair<vtime, vtime>> bad; vtime first_resp = INF; int in_flight, preps; bool can_tear;
void note(AF *f, bool ex, const std::string &t) { if (f->v.size()) f->v.back().to = now(); f->v.push_back({now(), INF, ex, t}); }
typedef std::map<std::string, std::string> Tab;
bool parse(AF *f, const std::string &t, Tab &m) { // the reference reading of a password file
	size_t i = 0;
	while (i < t.size()) {
		size_t e = t.find('\n', i); std::string l = t.substr(i, e == std::string::npos ? std::string::npos : e - i); i = e == std::string::npos ? t.size() : e + 1;
		if (l.empty()) continue;
		size_t c = l.find(':'); if (c != std::string::npos && f->kind == 2) c = l.find(':', c + 1);
		if (c == std::string::npos) return false;
		m[l.substr(0, c)] = l.substr(c + 1);
	}
	return true;
}
bool admits(AF *f, Tab &m, int u, int p) { // p < 0: a password nobody has
	auto it = m.find(f->kind == 2 ? std::string(UN[u]) + ":" + RE[f->realm] : std::string(UN[u])); if (it == m.end() || p < 0) return false;
	if (f->kind == 0) return it->second == PW[p];
	if (f->kind == 2) return it->second == HD[u][f->realm][p];
	for (int k = 0; k < 4; ++k) if (it->second == HT[p][k]) return true; return false;
}
std::string gen(AF *f) {
	std::string t; std::set<std::string> have; int n = decide("au.lines", 5);
	for (int i = 0; i < n; ++i) {
		int u = decide("au.u", NU), p = decide("au.p", NP), r = chance("au.otherrealm", 0.35) ? 1 - f->realm : f->realm; std::string k = UN[u];
		if (f->kind == 2) k += std::string(":") + RE[r]; if (!have.insert(k).second) continue; t += k + ":";
		if (f->kind == 0) t += PW[p]; else if (f->kind == 1) { int h = decide("au.h", 4); if (h == 2 && strlen(PW[p]) > 8) h = 0; t += HT[p][h]; } else t += HD[u][r][p];
		t += chance("au.crlf", 0.05) ? "\n\n" : "\n";
	}
	if (t.empty()) t = f->kind == 2 ? "nobody:x:-\n" : "nobody:-\n"; // (glib reads empty files through stdio, which is not simulated)
	if (chance("au.nonl", 0.1)) while (t.back() == '\n') t.pop_back();
	return t;
}
void change(AF *f) {
	if (!accept_count) return; // still reading the configuration
	int k = weighted("au.change", {6, 3, 1, 1, 6}); std::string t = gen(f); bool ex = f->v.back().exists;
	if (k == 3) { t += "bogus\nbob:x\n"; k = 0; tr("file %d becomes malformed", f->id); }
	if (k == 1 && (!ex || in_flight || can_tear)) k = 0; // rewriting in place while it is read is the administrator's race
	if (k == 2) { if (ex) { vfs_unlink(f->path); note(f, false, ""); tr("file %d removed", f->id); } return; }
	if (k == 4) { // prepared earlier, moved into place later
		std::string tmp = f->path + strf(".new%d", ++preps); vfs_put(tmp, t); vtime d = pick_log("au.prepms", 10, 30000) * MS;
		after(d, [f, tmp, t]() { vfs_rename(tmp, f->path); note(f, true, t); tr("file %d moved into place", f->id); }); return;
	}
	if (k == 1) {
		size_t cut = 1 + decide("au.cut", t.size()); vfs_put(f->path, t.substr(0, cut)); note(f, true, t.substr(0, cut)); tr("file %d rewritten, %d bytes so far", f->id, (int)cut);
		after(pick_log("au.rw", 1, 3000) * MS, [f, t, cut]() { if (!f->v.back().exists || f->v.back().text != t.substr(0, cut)) return; if (in_flight) vfs_replace(f->path, t); else vfs_put(f->path, t); note(f, true, t); tr("file %d complete", f->id); }); return;
	}
	vfs_replace(f->path, t); note(f, true, t); tr("file %d replaced: %s", f->id, strf("%d bytes", (int)t.size()).c_str());
}
vtime window(AF *f) { return (vtime)(f->ttl * SEC) * (slow_total || stalled_total ? 2 : 1) + 300 * MS + stalled_total + slow_total; }
void cand(AF *f, vtime w0, vtime w1, std::set<int> &c) {
	if (f->ttl == 0) { for (size_t i = 0; i < f->v.size(); ++i) { Tab m; if (f->v[i].exists && f->v[i].from <= first_resp && parse(f, f->v[i].text, m)) c.insert(i); } return; } // loaded once, at some time before the first response
	vtime s = INF; Tab m;
	for (size_t i = 0; i < f->v.size(); ++i) { Ver &v = f->v[i]; if (v.from > w1 || v.to < w0) continue; m.clear(); if (v.exists && parse(f, v.text, m)) c.insert(i); else s = std::min(s, v.from); }
	for (auto &b : bad) if (b.first <= w1 && b.second >= w0) s = std::min(s, b.first);
	if (w0 <= 0) c.insert(0);
	if (s == INF || w0 <= 0) return;
	// the file was unusable at some time in the window: what was loaded before stays in force
	Span best{0, -1}; for (auto &r : f->reqs) if (r.done <= std::min(s, w0) && r.done > best.done) best = r;
	cand(f, best.done < 0 ? 0 : std::min(best.sent, s) - window(f), std::max(s, w0), c);  // (between s and w0 it may have been loaded as well)
}
std::string b64(const std::string &s) {
	static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
	for (size_t i = 0; i < s.size(); i += 3) { uint32_t v = (unsigned char)s[i] << 16; if (i + 1 < s.size()) v |= (unsigned char)s[i + 1] << 8; if (i + 2 < s.size()) v |= (unsigned char)s[i + 2]; o += t[v >> 18]; o += t[v >> 12 & 63]; o += i + 1 < s.size() ? t[v >> 6 & 63] : '='; o += i + 2 < s.size() ? t[v & 63] : '='; }
	return o;
}
void judge(AF *f, Response &r, vtime sent, int u, int p, const std::string &form) {
	first_resp = std::min(first_resp, now()); stat_add("auth", 1); std::set<int> c; cand(f, sent - window(f), now(), c); bool yes = false, no = false;
	for (int i : c) { Tab m; parse(f, f->v[i].text, m); (u >= 0 && admits(f, m, u, p) ? yes : no) = true; }
	if (c.size() == 1) stat_add("decided", 1);
	std::string who = strf("file %d (%s): %s user '%s' password '%s'", f->id, f->kind == 0 ? "plain" : f->kind == 1 ? "htpasswd" : "htdigest", form.c_str(), u >= 0 ? UN[u] : "-", p >= 0 ? PW[p] : "-");
	bool want_deny = u >= 0 && !strcmp(UN[u], "bob");
	if (r.status == 401) {
		if (!no) violation("P25", "rejected", "%s: rejected although every password file version of the last %.3g s admits it", who.c_str(), f->ttl);
		if (r.get("WWW-Authenticate") != strf("Basic realm=\"%s\"", RE[f->realm])) violation("P25", "challenge", "%s: challenge is '%s'", who.c_str(), r.get("WWW-Authenticate").c_str());
		if (r.body.find("user=") != std::string::npos) violation("P25", "leaked", "%s: 401 with the protected content", who.c_str());
		stat_add("rejected", 1); return;
	}
	if (r.status != (want_deny ? 403 : 200)) violation("P25", "status", "%s: status %d", who.c_str(), r.status);
	if (!yes) violation("P25", "admitted", "%s: admitted although no password file version of the last %.3g s admits it", who.c_str(), f->ttl);
	stat_add("admitted", 1);
	if (!want_deny && r.body != strf("user=%s;file=%d", UN[u], f->id)) violation("P25,P06,P02", "identity", "%s: got '%s'", who.c_str(), r.body.c_str());
}
}
static void auth_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); c.modules = {"mod_auth"}; vfs_mkdirs("/vfs/etc"); vfs_put("/vfs/www/probe", "probe-ok\n");
	int nf = 1 + decide("au.nf", 3); std::string a = "keepalive.timeout 300;\n";
	for (int i = 0; i < nf; ++i) {
		AF *x = new AF; x->id = i; x->kind = decide("au.kind", 3); x->realm = decide("au.realm", 2); static const double ts[] = {10, 1, 2, 5, 0}; int ti = weighted("au.ttl", {2, 3, 3, 2, 1}); x->ttl = ts[ti]; x->path = strf("/vfs/etc/users%d", i); x->pre = strf("/a%d/", i);
		std::string t = gen(x); vfs_put(x->path, t); note(x, true, t); files.push_back(x);
		static const char *an[] = {"plain", "htpasswd", "htdigest"};
		a += strf("if req.path =^ \"%s\" {\n\tauth.%s [\"method\" => \"basic\", \"realm\" => \"%s\", \"file\" => \"%s\"%s];\n\tif req.env[\"REMOTE_USER\"] == \"bob\" { auth.deny; }\n\trespond 200 => \"user=%%{req.env[REMOTE_USER]};file=%d\";\n}\n", x->pre.c_str(), an[x->kind], RE[x->realm], x->path.c_str(), ti == 0 && decide("au.def", 2) ? "" : strf(", \"ttl\" => %d", (int)x->ttl).c_str(), i);
	}
	c.actions = a + "if req.path == \"/open\" { respond 200 => \"user=%{req.env[REMOTE_USER]};\"; }\ndocroot \"/vfs/www\";\nstatic;\n"; write_config(c);
	when_listening([f]() {
		for (auto *x : files) x->v[0].from = 0;
		vtime span = pick_log("au.span", chance("au.short", 0.2) ? 200 : 3000, 60000) * MS;
		if (f && chance("au.slow", 0.2)) { set_fault("disk_slow", 0.05); can_tear = true; } if (f && chance("au.short", 0.2)) { set_fault("disk_short_read", 0.3); can_tear = true; }
		if (f) for (int i = decide("au.bursts", 4); i > 0; --i) after((vtime)(span * (decide("au.bt", 1000) / 1000.0)), [span]() {
			const char *k[] = {"stat_err", "open_emfile", "disk_read_eio", "fstat_err"}; const char *n = k[decide("au.bk", 4)]; set_fault(n, chance("au.bfull", 0.7) ? 1 : 0.3); size_t at = bad.size(); bad.push_back({now(), INF}); tr("burst of %s", n); if (decide("au.bch", 2)) change(files[decide("au.f", files.size())]);
			after(pick_log("au.bl", 10, std::max<int64_t>(20, span / MS / 2)) * MS, [n, at]() { set_fault(n, 0); bad[at].second = now(); tr("burst of %s over", n); });
		});
		for (int i = decide("au.nch", 25); i > 0; --i) after((vtime)(span * (decide("au.ct", 1000) / 1000.0)), []() { change(files[decide("au.f", files.size())]); });
		int nc = 1 + decide("au.nc", 6);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P25,P02"; int nr = 1 + decide("au.nr", 40); if (chance("au.burst", 0.2)) k->depth = 3;
			for (int j = 0; j < nr; ++j) {
				Req q; q.think = chance("au.think", 0.7) ? pick_log("au.thinkms", 1, std::max<int64_t>(2, span / MS / nr * 2)) * MS : 0;
				if (chance("au.open", 0.07)) { q.name = "open"; q.bytes = req("GET", "/open", chance("au.opena", 0.5) ? "Host: h\r\nAuthorization: Basic " + b64("alice:secret") + "\r\n" : "Host: h\r\n"); q.check = [](Response &r) { if (r.status != 200 || r.body != "user=;") violation("P25,P06", "open", "unprotected request got %d '%s'", r.status, r.body.c_str()); }; k->reqs.push_back(q); continue; }
				AF *x = files[decide("au.f", files.size())]; int u = decide("au.u", NU), p = decide("au.p", NP); std::string h, form = "valid form";
				// often: an entry of the file as it is now or was recently
				if (chance("au.hit", 0.6)) q.aux2 = 1;
				int fm = q.aux2 ? 0 : weighted("au.form", {10, 2, 1, 1, 1, 1, 1, 1, 1}); std::string pw = PW[p];
				switch (fm) {
				case 0: h = "Basic " + b64(std::string(UN[u]) + ":" + pw); break;
				case 1: form = "no header"; break;
				case 2: form = "no colon"; h = "Basic " + b64(UN[u]); break;
				case 3: form = "not base64"; h = "Basic %%%%"; break;
				case 4: form = "other scheme"; h = "Bearer " + b64(std::string(UN[u]) + ":" + pw); break;
				case 5: form = "longer password"; h = "Basic " + b64(std::string(UN[u]) + ":" + pw + "~"); p = -1; break;
				case 6: form = "empty"; h = "Basic "; break;
				case 7: form = "colon first"; h = "Basic " + b64(":" + std::string(UN[u]) + ":" + pw); break;
				case 8: form = "unknown user"; h = "Basic " + b64("mallory:" + pw); break;
				}
				int ju = fm == 0 || fm == 5 ? u : -1; vtime *sent = new vtime(0); q.name = x->pre; q.tag = (uint64_t)(intptr_t)x; q.aux = (int64_t)(intptr_t)sent; struct Id { int u, p; }; Id *id = new Id{ju, p};
				std::string body = chance("au.post", 0.15) ? std::string(decide("au.body", 5000), 'b') : ""; bool post = !body.empty(); std::string path = x->pre + strf("r%d", j);
				auto mk = [path, post, body](const std::string &h) { return req(post ? "POST" : "GET", path, "Host: h\r\n" + (h.empty() ? "" : "Authorization: " + h + "\r\n") + (post ? strf("Content-Length: %d\r\n", (int)body.size()) : ""), body); };
				q.bytes = mk(h);
				q.check = [x, sent, id, form](Response &r) { judge(x, r, *sent, id->u, id->p, form); x->reqs.push_back({*sent, now()}); };
				if (q.aux2) { // choose the credentials when the request is about to be sent
					auto *mkp = new std::function<std::string(int, int)>([mk](int u, int p) { return mk("Basic " + b64(std::string(UN[u]) + ":" + PW[p])); }); q.t_full = 0;
					q.aux2 = (int64_t)(intptr_t) new std::function<std::string()>([x, id, mkp]() {
						Ver &v = x->v[x->v.size() > 1 && chance("au.old", 0.35) ? x->v.size() - 2 : x->v.size() - 1]; Tab m; parse(x, v.text, m); std::vector<Id> ok; for (int u = 0; u < NU; ++u) for (int p = 0; p < NP; ++p) if (admits(x, m, u, p)) ok.push_back({u, p});
						if (!ok.empty()) *id = ok[decide("au.which", ok.size())]; return (*mkp)(id->u, id->p); });
				}
				k->reqs.push_back(q);
			}
			k->on_sent = [](Client *, Req &q) { if (!q.tag) return; *(vtime *)(intptr_t)q.aux = now(); ++in_flight; if (q.aux2) q.bytes = (*(std::function<std::string()> *)(intptr_t)q.aux2)(); };
			k->on_resp = [](Client *, Req &q, Response &) { if (q.tag) --in_flight; };
			if (f && chance("au.abort", 0.1)) { k->abort_at = pick_log("au.abat", 1, 20000) * MS; k->abort_rst = chance("au.abrst", 0.5); }
			k->on_end = [](Client *k) { stat_add("responses", k->got); nontrivial(k->got * 3 + k->depth); if (k->end == Client::DONE || k->end == Client::ABORTED) return; if (k->got && k->saw_close) return; violation("P25,P02", "conn-broken", "%s: connection ended with state %d", k->desc().c_str(), (int)k->end); };
			track(k); after((vtime)(span * (decide("au.st", 1000) / 1000.0)), [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P25,P10,P02"; run_to_end(o);
	});
}
static ScenarioReg r1("auth", auth_setup);
