// Requests handled by Lua scripts which are replaced while the server runs.
#include "harness.h"
using namespace sim;
namespace {
enum Kind { GOOD, SYNTAX, LOADERR, NOACTION, RUNERR, MISSING };
struct Ver { vtime from; Kind k; int id; };
struct Script { std::string path; std::vector<Ver> v; int ttl; bool mixed; };
Script A; double stat_ttl; int serial; const vtime FOREVER = (vtime)1 << 60;
std::string text(Kind k, int id, int form) {
	if (k == SYNTAX) return "local function h(vr)\n  if if\n";
	if (k == LOADERR) return "local x = nil\nlocal y = x.z\n";
	if (k == NOACTION) return strf("local v = %d\n", id);
	std::string body = strf("local V = \"v%d\"\nlocal function first(vr)\n\tREQ.n = (REQ.n or 0) + 1\n\tmark = (mark or \"\") .. vr.req.uri.path\nend\nlocal function h(vr)\n", id);
	if (k == RUNERR) body += "\tlocal x = nil\n\tvr.resp.status = x.y\n";
	if (form & 2) body += "\tif not vr.is_handled and not waited then waited = true; REQ.k = vr.req.uri.query; return lighty.HANDLER_COMEBACK end\n"; // the action runs again, later
	body += "\tif vr:handle_direct() then\n\t\tvr.resp.status = 200\n\t\tvr.resp.headers[\"X-L\"] = V\n\t\tlocal old = seen\n\t\tseen = vr.req.uri.path\n\t\tvr.out:add(V .. \"|\" .. vr.req.uri.path .. \"|\" .. vr.req.uri.query .. \"|\" .. (vr.req.headers[\"X-Id\"] or \"-\") .. \"|\" .. tostring(old) .. \"|\" .. tostring(mark) .. \"|\" .. tostring(REQ.n))\n\tend\nend\n";
	return body + ((form & 1) ? "actions = action.list({first, h})\n" : "actions = h\n");
}
const char *filter_text = "local F = {}\nF.__index = F\nfunction F:new(vr)\n\tlocal o = { n = 0, id = vr.req.headers[\"X-Id\"] }\n\tsetmetatable(o, self)\n\treturn o\nend\n"
	"function F:handle(vr, outq, inq)\n\tself.n = self.n + 1\n\tcount = (count or 0) + 1\n\tif inq ~= nil then\n\t\toutq:steal_all(inq)\n\t\tif inq.is_closed and not self.done then\n\t\t\tself.done = true\n\t\t\toutq:add(\"<\" .. tostring(self.id) .. (count == self.n and \"\" or \"!\") .. \">\")\n\t\t\toutq.is_closed = true\n\t\tend\n\tend\n\treturn lighty.HANDLER_GO_ON\nend\n";
const char *x_text = "local function h(vr)\n\tif vr.is_handled then return end\n\tlocal op, f, s, n = vr.req.uri.query:match(\"^(%a+)-(%d+)-(%d*)-(%d*)$\")\n\tlocal p = \"/vfs/www/f/\" .. f\n\tlocal out\n"
	"\tif op == \"stat\" then\n\t\tlocal st, rc = vr:stat(p)\n\t\tif rc == lighty.HANDLER_WAIT_FOR_EVENT then return rc end\n\t\tout = st and tostring(st.size) or \"no\"\n\tend\n"
	"\tif not vr:handle_direct() then return end\n\tvr.resp.status = 200\n\tvr.resp.headers[\"X-L\"] = \"v0\"\n\tif out then vr.out:add(out) return end\n\tlocal ok\n\tif n ~= \"\" then ok = pcall(vr.out.add_file, vr.out, p, tonumber(s), tonumber(n)) elseif s ~= \"\" then ok = pcall(vr.out.add_file, vr.out, p, tonumber(s)) else ok = pcall(vr.out.add_file, vr.out, p) end\n\tif not ok then vr.out:add(\"bad\") end\nend\nactions = h\n";
std::map<std::string, std::string> files;
int forms[400];
void put(Kind k) {
	int id = serial++; forms[id] = decide("lu.form", 4); tr("script version %d kind %d", id, (int)k);
	if (k == MISSING) vfs_unlink(A.path); else if (!vfs_lookup(A.path) || decide("lu.how", 2)) vfs_replace(A.path, text(k, id, forms[id])); else vfs_put(A.path, text(k, id, forms[id]));
	A.v.push_back({now(), k, id});
}
Kind rnd() { static const Kind ks[] = {GOOD, SYNTAX, LOADERR, NOACTION, RUNERR, MISSING}; return ks[weighted("lu.kind", {8, 2, 2, 1, 1, 1})]; }
struct Q { vtime sent = 0; };
}
static void lua_setup() {
	ServerCfg c; bool f = !cfg.faults_off; common_knobs(c, f); c.modules = {"mod_lua"}; vfs_mkdirs("/vfs/lua"); vfs_put("/vfs/www/probe", "probe-ok\n");
	if (c.workers < 2 && decide("lu.w", 2)) c.workers = 2 + decide("lu.nw", 2);
	stat_ttl = c.stat_ttl >= 0 ? c.stat_ttl : 10; A.path = "/vfs/lua/a.lua"; A.ttl = 1 + decide("lu.ttl", 5); put(GOOD);
	int gform = decide("lu.form", 4); vfs_put("/vfs/lua/g.lua", text(GOOD, 0, gform)); int cform = decide("lu.form", 4); vfs_put("/vfs/lua/c.lua", text(GOOD, 0, cform)); static int fg, fc; fg = gform; fc = cform;
	vfs_put("/vfs/lua/f.lua", std::string(filter_text) + "actions = function(vr) vr:add_filter_out(F:new(vr)) end\n"); vfs_put("/vfs/lua/o.lua", std::string(filter_text) + "actions = lighty.filter_out(F)\n"); vfs_put("/vfs/lua/x.lua", x_text);
	for (const char *d : {"f", "o"}) for (int i = 0; i < 4; ++i) { std::string p = strf("/%s/%d", d, i); files[p] = content(7 + i, i == 3 ? 0 : pick_log("lu.size", 1, 300000)); vfs_put("/vfs/www" + p, files[p]); }
	c.actions = strf("keepalive.timeout 300;\ndocroot \"/vfs/www\";\nif req.path =^ \"/a/\" { lua.handler (\"/vfs/lua/a.lua\", [ \"ttl\" => %d ]); } else if req.path =^ \"/c/\" { lua.handler \"/vfs/lua/c.lua\"; } else if req.path =^ \"/g/\" { include_lua \"/vfs/lua/g.lua\"; } else if req.path =^ \"/f/\" { static; if req.is_handled { lua.handler \"/vfs/lua/f.lua\"; } } else if req.path =^ \"/o/\" { static; if req.is_handled { include_lua \"/vfs/lua/o.lua\"; } } else if req.path == \"/x\" { lua.handler \"/vfs/lua/x.lua\"; } else { static; }\n", A.ttl);
	write_config(c);
	when_listening([f]() {
		vtime span = pick_log("lu.span", 500, 60000) * MS, start_at = 0; int nch = decide("lu.nch", 8);
		for (int i = 0; i < nch; ++i) after((vtime)(span * (decide("lu.at", 1000) / 1000.0)), []() { put(rnd()); });
		after(span + 1 * MS, []() { put(GOOD); }); // the last version is right: it must come into use
		int nc = 2 + decide("lu.nc", 6);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client(); k->link = rand_link(); k->malformed_prop = "P30,P02"; if (chance("lu.burst", 0.2)) k->depth = 3; int nr = i ? 1 + decide("lu.nr", 14) : 1; if (!i) k->depth = 1; // the first one asks when the last version must be in use

			for (int j = 0; j < nr; ++j) {
				Req q; static int rid; int id = ++rid; int w = i ? weighted("lu.what", {6, 2, 2, 2, 2, 3}) : 0; q.head = chance("lu.head", 0.1); std::string p = w == 5 ? std::string("/x") : w > 2 ? strf("/%c/%d", "acgfo"[w], (int)decide("lu.file", 4)) : strf("/%c/r%d", "acg"[w], id), qs = decide("lu.q", 2) ? strf("x=%d", id) : ""; q.name = p; auto sent = std::make_shared<Q>(); q.aux = (int64_t)(intptr_t)sent.get();
				std::string xw;
				if (w == 5) {
					int fi = decide("lu.xfile", 5); bool st = chance("lu.xstat", 0.3); const std::string *d = fi < 4 ? &files[strf("/f/%d", fi)] : nullptr; size_t sz = d ? d->size() : 10; int na = st ? 0 : decide("lu.xargs", 3); auto val = [&](const char *n) { return chance(n, 0.2) ? sz : (size_t)decide(n, sz + 2); }; size_t s0 = na ? val("lu.xs") : 0, n0 = na > 1 ? val("lu.xn") : 0;
					qs = strf("%s-%d-", st ? "stat" : "part", fi) + (na ? strf("%zu", s0) : "") + "-" + (na > 1 ? strf("%zu", n0) : ""); xw = !d ? (st ? "no" : "bad") : st ? strf("%zu", sz) : s0 > sz || (na > 1 && s0 + n0 > sz) ? "bad" : na > 1 ? d->substr(s0, n0) : d->substr(s0);
				}
				q.bytes = req(q.head ? "HEAD" : "GET", p + (qs.empty() ? "" : "?" + qs), strf("Host: h\r\nX-Id: %d\r\n", id)); q.think = chance("lu.think", 0.8) ? pick_log("lu.thms", 1, std::max<int64_t>(2, span / MS / nr * 3)) * MS : 0; bool head = q.head;
				if (!i) start_at = span + (vtime)((A.ttl + stat_ttl) * SEC) + 6 * SEC;
				q.check = [=](Response &r) {
					stat_add("queries", 1);
					auto want = [&](int ver, int form) { return strf("v%d|%s|%s|%d|nil|%s|%s", ver, p.c_str(), qs.c_str(), id, (form & 1) ? "nil" : "nil", (form & 1) ? "1" : "nil"); };
					auto ok = [&](int ver, int form) { std::string x = want(ver, form); return r.status == 200 && r.get("X-L") == strf("v%d", ver) && (head || r.body == x); };
					if (w == 5) { if (r.status != 200 || (!head && r.body != xw)) violation("P30,P09,P01", "part", "%s?%s: status %d, %zu bytes '%.20s' instead of %zu '%.20s'", p.c_str(), qs.c_str(), r.status, r.body.size(), r.body.c_str(), xw.size(), xw.c_str()); stat_add("parts", 1); return; }
					if (w > 2) { std::string x = files[p] + strf("<%d>", id); if (r.status != 200 || (!head && r.body != x)) { size_t d = 0; while (d < r.body.size() && d < x.size() && r.body[d] == x[d]) ++d; violation("P30,P06", "filtered", "%s: status %d, %zu bytes instead of %zu, different from byte %zu on", p.c_str(), r.status, r.body.size(), x.size(), d); } stat_add("filtered", 1); return; }
					if (w) { int form = w == 1 ? fc : fg; if (!ok(0, form)) violation("P30,P06", "answer", "%s: status %d, '%.200s' instead of '%s'", p.c_str(), r.status, r.body.c_str(), want(0, form).c_str()); return; }
					vtime lo = sent->sent - (vtime)((A.ttl + stat_ttl) * SEC) - 3 * SEC - stalled_total; bool bad = false, any = false;
					for (size_t i = 0; i < A.v.size(); ++i) {
						vtime end = i + 1 < A.v.size() ? A.v[i + 1].from : FOREVER; if (end < lo) continue;
						if (A.v[i].k != GOOD) bad = true; else if (ok(A.v[i].id, forms[A.v[i].id])) any = true;
					}
					if (any) { stat_add("by_version", 1); return; }
					if (r.status == 500 && bad) { stat_add("broken", 1); return; }
					int cur = A.v.back().id; violation("P30,P06", r.status == 200 ? "answer" : "failed", "%s: status %d, '%.200s'; the script in place has version %d (kind %d) and the last %.0f s had %s", p.c_str(), r.status, r.body.c_str(), cur, (int)A.v.back().k, (double)(now() - lo) / SEC, bad ? "broken ones" : "only good ones");
				};
				k->reqs.push_back(q);
			}
			k->on_sent = [](Client *, Req &q) { ((Q *)(intptr_t)q.aux)->sent = now(); };
			if (f && i && chance("lu.abort", 0.1)) { k->abort_at = pick_log("lu.abat", 1, 20000) * MS; k->abort_rst = chance("lu.abrst", 0.5); }
			k->on_end = [](Client *k) {
				stat_add("responses", k->got); nontrivial(k->got * 7 + k->depth); if (k->end == Client::DONE || k->end == Client::ABORTED) return;
				Q *q = k->got < k->reqs.size() ? (Q *)(intptr_t)k->reqs[k->got].aux : nullptr; bool bad = false; // an action that fails resets the connection
				if (q && q->sent) { vtime lo = q->sent - (vtime)((A.ttl + stat_ttl) * SEC) - 3 * SEC - stalled_total; for (size_t i = 0; i < A.v.size(); ++i) { vtime end = i + 1 < A.v.size() ? A.v[i + 1].from : FOREVER; if (end >= lo && A.v[i].k != GOOD) bad = true; } }
				if (!bad) violation("P30,P02", "conn-broken", "%s: connection ended with state %d although no script was broken", k->desc().c_str(), (int)k->end); stat_add("reset", 1);
			};
			track(k); after(i ? pick_log("lu.start", 0, 3000) * MS : start_at, [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P30,P02,P10"; run_to_end(o);
	});
}
static ScenarioReg r1("lua", lua_setup);
