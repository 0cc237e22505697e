// What one request sets (options, environment, headers, captures, document root, rewritten path) holds for that request only.
#include "harness.h"
using namespace sim;
namespace {
struct Up : Peer { // backend: answers with the headers it was given
	std::string in; bool over = false; static int open_now; Up() { ++open_now; }
	void gone() { if (!over) { over = true; --open_now; } }
	static std::string hv(const std::string &h, const std::string &n) { std::string l; for (char c : h) l += tolower(c); std::string r; size_t p = 0; while ((p = l.find("\r\n" + n + ":", p)) != std::string::npos) { size_t v = p + n.size() + 3, e = h.find("\r\n", v); while (v < e && h[v] == ' ') ++v; r += (r.empty() ? "" : "+") + h.substr(v, e - v); p = e; } return r; }
	void on_data(const char *p, size_t n) override {
		in.append(p, n); size_t e;
		while ((e = in.find("\r\n\r\n")) != std::string::npos) { std::string h = in.substr(0, e + 2); in.erase(0, e + 4); std::string rl = h.substr(0, h.find("\r\n")); rl = rl.substr(0, rl.rfind(' ')); std::string b = rl + "|" + hv(h, "x-id") + "|" + hv(h, "x-up") + "|" + hv(h, "x-gone"); s->send("HTTP/1.1 200 OK\r\nX-Be: " + hv(h, "x-id") + strf("\r\nContent-Length: %zu\r\n\r\n", rl.compare(0, 5, "HEAD ") ? b.size() : 0) + (rl.compare(0, 5, "HEAD ") ? b : "")); }
	}
	void on_eof() override { s->close(); gone(); } void on_reset() override { gone(); }
};
int Up::open_now = 0; BackendListener ul; int serial;
std::string tok(const char *s) { size_t n = pick_log(s, 1, 30); std::string r; for (size_t i = 0; i < n; ++i) r += "abcdefghijklmnopqrstuvwxyz0123456789"[decide(s, 36)]; return r; }
void make(Req &q, Client *k) {
	int id = ++serial; static const char *hosts[] = {"h", "one.example", "two.example"}; int ho = decide("op.host", 3), kind = decide("op.kind", 7), tag = decide("op.tag", 3);
	auto flag = [](const char *n) { return chance(n, 0.3); };
	bool fr = flag("op.range"), fe = flag("op.etag"), fm = flag("op.mime"), fx = chance("op.excl", 0.12), fh = flag("op.hdr"), fv = flag("op.env"), fv2 = flag("op.env2"), fu = flag("op.up"), fg = flag("op.gone"), ft = flag("op.st"), fd = flag("op.exp"), range = flag("op.rg"), strip = flag("op.strip"); bool head = chance("op.head", 0.1);
	std::string H = strf("Host: %s\r\nX-Id: %d\r\n", hosts[ho], id); auto add = [&](bool b, const char *n) { if (b) H += std::string(n) + ": 1\r\n"; };
	if (tag) H += strf("X-T: %d\r\n", tag); add(fr, "X-R"); add(fe, "X-E"); add(fm, "X-M"); add(fx, "X-X"); add(fh, "X-H"); add(fv, "X-V"); add(fv2, "X-V2"); add(fu, "X-U"); add(fd, "X-Exp"); add(strip, "X-Strip"); if (fg) H += strf("X-Gone: g%d\r\n", id); add(kind == 1 && ft, "X-S"); if (range) H += "Range: bytes=0-0\r\n";
	std::string path, want, loc, a = tok("op.a"), b = tok("op.b"), sid = strf("%d", id); int st = 200; std::string qs = chance("op.q", 0.5) ? "q=" + tok("op.qs") : ""; bool isstatic = false;
	std::string env1 = fv ? "v" + sid : "", env2 = fv2 ? "w" + a.substr(0, 1) : "";
	switch (kind) {
	case 0: path = strf("/s%d.txt", (int)decide("op.file", 3)); want = std::string(ho == 1 ? "one" : ho == 2 ? "two" : "www") + path + "\n"; isstatic = true; if (fx) st = 403; else if (range && !fr) { st = 206; want = want.substr(0, 1); } break;
	case 1: path = "/e/" + a; want = (head ? "HEAD|" : "GET|") + path + "|" + qs + "|" + hosts[ho] + "|" + env1 + "|" + env2 + "|" + sid; if (ft) st = 299; break;
	case 2: path = "/p/" + a; want = (head ? "HEAD " : "GET ") + path + (qs.empty() ? "" : "?" + qs) + "|" + sid + "|" + (fu ? "u" + sid : "") + "|" + (fg && !strip ? "g" + sid : ""); break;
	case 3: path = "/w/" + a + "/" + b; want = (head ? "HEAD|/e/" : "GET|/e/") + b + "|n=" + a + "&i=" + sid + "|" + hosts[ho] + "|" + env1 + "|" + env2 + "|" + sid; break;
	case 4: path = "/j/" + a; st = 301; loc = std::string("http://") + hosts[ho] + "/to/" + a + "-" + sid; break;
	case 5: path = "/c/" + a + "/" + b; want = a + "<" + b + ">" + a; break;
	case 6: path = "/none/" + a; st = 404; isstatic = true; break;
	}
	q.head = head; q.name = path + "#" + sid; q.bytes = req(head ? "HEAD" : "GET", path + (qs.empty() ? "" : "?" + qs), H); std::string hl; for (char ch : H) if (ch == 13) hl += "; "; else if (ch != 10) hl += ch; std::string name = k->desc() + " " + path + " (" + hl + ")";
	q.check = [=](Response &r) {
		auto bad = [&](const char *what, const std::string &got, const std::string &exp) { violation("P06", "leak", "%s: %s is '%.150s' instead of '%.150s'", name.c_str(), what, got.c_str(), exp.c_str()); };
		if (r.status != st) bad("status", strf("%d", r.status), strf("%d", st));
		if (st != 403 && st != 404 && st != 301 && !head && r.body != want) bad("body", r.body, want);
		std::string tg = tag == 0 ? "base" : strf("t%d", tag); if (r.get("Server") != tg) bad("Server", r.get("Server"), tg);
		std::string xr = fh ? "r" + sid : ""; if (r.get("X-Resp") != xr) bad("X-Resp", r.get("X-Resp"), xr);
		if (kind == 4 && r.get("Location") != loc) bad("Location", r.get("Location"), loc); if (kind != 4 && r.get("Location") != "") bad("Location", r.get("Location"), "");
		if (kind != 2 && r.get("X-Be") != "") bad("X-Be", r.get("X-Be"), ""); if (kind == 2 && r.get("X-Be") != sid) bad("X-Be", r.get("X-Be"), sid);
		if ((r.get("Expires") != "") != fd) bad("Expires", r.get("Expires"), fd ? "a date" : "");
		if (isstatic && st < 400) {
			std::string ct = fm ? "text/x-special" : "text/plain"; if (r.get("Content-Type") != ct) bad("Content-Type", r.get("Content-Type"), ct);
			if ((r.get("ETag") == "") != fe) bad("ETag", r.get("ETag"), fe ? "" : "a tag");
			if ((r.get("Accept-Ranges") == "bytes") == fr) bad("Accept-Ranges", r.get("Accept-Ranges"), fr ? "" : "bytes");
		} else if (kind != 2 && r.get("ETag") != "") bad("ETag", r.get("ETag"), "");
		if (st != 206 && r.get("Content-Range") != "") bad("Content-Range", r.get("Content-Range"), "");
		stat_add("checked", 1);
	};
}
}
static void opts_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); c.modules = {"mod_proxy", "mod_rewrite", "mod_redirect", "mod_vhost", "mod_expire"}; vfs_mkdirs("/var/tmp");
	vfs_put("/vfs/www/probe", "probe-ok\n"); for (const char *d : {"www", "one", "two"}) for (int i = 0; i < 3; ++i) vfs_put(strf("/vfs/%s/s%d.txt", d, i), strf("%s/s%d.txt\n", d, i));
	c.actions = "keepalive.timeout 300;\nserver.tag \"base\";\nmime_types (\".txt\" => \"text/plain\");\nvhost.map [\"one.example\" => { docroot \"/vfs/one\"; }, \"two.example\" => { docroot \"/vfs/two\"; }, default => { docroot \"/vfs/www\"; }];\n"
		"if req.header[\"X-T\"] == \"1\" { server.tag \"t1\"; } else if req.header[\"X-T\"] == \"2\" { server.tag \"t2\"; }\nif req.header[\"X-R\"] == \"1\" { static.range_requests false; }\nif req.header[\"X-E\"] == \"1\" { etag.use [[]]; }\n"
		"if req.header[\"X-M\"] == \"1\" { mime_types (\".txt\" => \"text/x-special\"); }\nif req.header[\"X-X\"] == \"1\" { static.exclude_extensions [\".txt\"]; }\nif req.header[\"X-H\"] == \"1\" { header.add \"X-Resp\" => \"r%{req.header[x-id]}\"; }\n"
		"if req.header[\"X-V\"] == \"1\" { env.set \"V1\" => \"v%{req.header[x-id]}\"; }\nif req.header[\"X-V2\"] == \"1\" { if req.path =~ \"^/[a-z]+/(.)\" { env.set \"V2\" => \"w%1\"; } }\nif req.header[\"X-U\"] == \"1\" { req_header.add \"X-Up\" => \"u%{req.header[x-id]}\"; }\nif req.header[\"X-Strip\"] == \"1\" { req_header.remove \"X-Gone\"; }\nif req.header[\"X-Exp\"] == \"1\" { expire \"access plus 1 hours\"; }\n"
		"rewrite \"^/w/([^/]*)/(.*)$\" => \"/e/$2?n=$1&i=%{req.header[x-id]}\";\nredirect \"^/j/(.*)$\" => \"http://%{req.host}/to/$1-%{req.header[x-id]}\";\n"
		"if req.path =~ \"^/c/([^/]*)/(.*)$\" { respond 200 => \"%1<%2>%1\"; }\nif req.path =^ \"/p/\" { proxy \"127.0.0.1:9001\"; }\n"
		"if req.path =^ \"/e/\" { if req.header[\"X-S\"] == \"1\" { respond 299 => \"%{req.method}|%{req.path}|%{req.query}|%{req.host}|%{req.env[V1]}|%{req.env[V2]}|%{req.header[x-id]}\"; } else { respond 200 => \"%{req.method}|%{req.path}|%{req.query}|%{req.host}|%{req.env[V1]}|%{req.env[V2]}|%{req.header[x-id]}\"; } }\nstatic;\n";
	ul.policy = []() { return CP_OK; }; ul.accept = []() -> Peer * { return new Up; }; net_backend("127.0.0.1:9001", &ul); write_config(c);
	when_listening([f]() {
		int nc = 2 + decide("op.nc", 8);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P02,P06"; k->depth = 1 + weighted("op.depth", {4, 2, 2, 1, 1}); int nr = 1 + decide("op.nr", 12);
			for (int j = 0; j < nr; ++j) { Req q; make(q, k); if (chance("op.trickle", 0.1)) { q.trickle = pick_log("op.trn", 1, 60); q.gap = pick_log("op.trus", 1, 20000) * US; } q.think = chance("op.think", 0.3) ? pick_log("op.thms", 1, 3000) * MS : 0; k->reqs.push_back(q); }
			if (f && chance("op.abort", 0.15)) { k->abort_at = pick_log("op.abat", 1, 5000) * MS; k->abort_rst = chance("op.abrst", 0.5); }
			if (f && chance("op.abortrx", 0.1)) { k->abort_rx = pick_log("op.abrx", 1, 3000); k->abort_rst = chance("op.abrst", 0.5); }
			k->on_end = [](Client *k) { stat_add("responses", k->got); nontrivial(k->got * 7 + k->depth); if (k->end != Client::DONE && k->end != Client::ABORTED) violation("P02,P06", "conn-broken", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end); };
			track(k); after(late_wave() + pick_log("op.start", 0, 3000) * MS, [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P02,P06,P10"; o.idle_cond = []() { return Up::open_now ? std::string("backend connections still open") : std::string(); }; run_to_end(o);
	});
}
static ScenarioReg r1("opts", opts_setup);
