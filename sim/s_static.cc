// Static files over keep-alive / pipelined connections.
#include "harness.h"
using namespace sim;

static std::map<std::string, std::string> files;
static void make_files(int n, size_t maxsz) {
	for (int i = 0; i < n; ++i) {
		size_t sz = (size_t)pick_log("file.size", 0, maxsz);
		std::string p = strf("/f%d.bin", i);
		files[p] = content(100 + i, sz);
		vfs_put("/vfs/www" + p, files[p]);
	}
	files["/probe"] = "probe-ok\n"; vfs_put("/vfs/www/probe", files["/probe"]);
}
static bool flv;
static void static_setup() {
	ServerCfg c; common_knobs(c, !cfg.faults_off);
	if (!cfg.faults_off) {
		static const double r[] = {0, 0, 0.01, 0.1};
		set_fault("sendfile_einval", r[decide("knob.sfinval", 4)]);
		set_fault("disk_short_read", r[decide("knob.dshort", 4)]);
		static const double r2[] = {0, 0, 0.1, 1};
		set_fault("mmap_err", r2[decide("knob.mmap", 4)]); set_fault("disk_eintr", r[decide("knob.deintr", 4)]);
	}
	static bool lon; lon = chance("long", 0.08);   // connections that live longer than the 5 min after which unused ones are freed
	c.actions = std::string("keepalive.timeout ") + (lon ? "1200" : "120") + ";\ndocroot \"/vfs/www\";\n";
	if (chance("knob.statsync", 0.3)) c.actions = "stat.async false;\n" + c.actions;
	make_files(4, 700000);
	if (chance("st.flv", 0.25)) { c.modules.push_back("mod_flv"); c.actions += "if req.path =$ \".bin\" { flv; } else { static; }\n"; flv = true; }
	write_config(c);
	when_listening([]() {
		int nc = 1 + decide("n.clients", 6);
		for (int i = 0; i < nc; ++i) {
			Client *k = new_client();
			k->link = rand_link(); k->malformed_prop = "P02";
			k->depth = 1 + weighted("depth", {4, 2, 2, 1, 1});
			int nr = 1 + decide("n.reqs", 8);
			if (chance("slowrd", 0.2)) { k->pause_every = pick_log("pause.every", 1000, 100000); k->pause_for = pick_log("pause.ms", 1, 3000) * MS; }
			for (int j = 0; j < nr; ++j) {
				Req q; auto it = files.begin(); std::advance(it, decide("file", files.size()));
				std::string path = it->first; std::string want = it->second;
				q.head = chance("head", 0.15);
				q.name = path + strf("#%d.%d", k->id, j);
				std::string query;
				if (flv && path != "/probe" && chance("flv.start", 0.7)) { // the tail of the file behind a new flv header
					size_t pos = decide("flv.pos", want.size() + 2); if (chance("flv.edge", 0.3)) { const size_t e[] = {0, 1, want.size() ? want.size() - 1 : 0, want.size(), want.size() + 1, want.size() + 100000}; pos = e[decide("flv.edgek", 6)]; }
					query = strf(chance("flv.other", 0.3) ? "?a=1&start=%zu" : "?start=%zu", pos); if (pos && pos <= want.size()) want = std::string("FLV\x1\x1\0\0\0\x9\0\0\0\x9", 13) + want.substr(pos);
				}
				q.bytes = req(q.head ? "HEAD" : "GET", path + query, strf("Host: h\r\nX-Id: %d\r\n", j));
				if (chance("trickle", 0.15)) { q.trickle = pick_log("trickle.n", 1, 60); q.gap = pick_log("trickle.us", 1, 20000) * US; }
				q.think = chance("think", 0.3) ? pick_log("think.ms", 1, 3000) * MS : 0; if (lon && j && chance("longthink", 0.5)) q.think = (vtime)pick("longs", 100, 500) * SEC;
				bool head = q.head; int kid = k->id;
				q.check = [path, want, head, kid](Response &r) {
					if (r.status != 200) violation("P01", "status", "client %d %s: status %d instead of 200", kid, path.c_str(), r.status);
					if (r.clen != (int64_t)want.size() && !(head && r.clen < 0)) violation("P01", "length", "client %d %s: Content-Length %lld instead of %zu", kid, path.c_str(), (long long)r.clen, want.size());
					if (!head && r.body != want) {
						size_t d = 0; while (d < r.body.size() && d < want.size() && r.body[d] == want[d]) ++d;
						violation("P01", "content", "client %d %s: body differs at offset %zu (got %zu bytes, file has %zu)", kid, path.c_str(), d, r.body.size(), want.size());
					}
				};
				k->reqs.push_back(q);
			}
			k->on_end = [](Client *k) {
				if (k->end != Client::DONE) violation("P02", "conn-broken", "%s: connection ended with state %d before every response arrived", k->desc().c_str(), (int)k->end);
				stat_add("responses", k->got); nontrivial(k->got * 7 + k->depth);
			};
			track(k);
			after(late_wave() + pick_log("start.ms", 0, 500) * MS, [k]() { k->start(listen_addr); });
		}
		EndOpts o; o.live_prop = "P02"; if (lon) o.client_deadline = 20000 * SEC;
		run_to_end(o);
	});
}
static ScenarioReg r1("static", static_setup);
