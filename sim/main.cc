// Runner: forks one process per simulated run.
#include "world.h"
#include "shared.h"
#include "raw.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <dirent.h>
#include <signal.h>
#include <unistd.h>
#include <stdlib.h>
#include <time.h>
#include <algorithm>
#include <unordered_set>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:handle_sigill=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=12:print_summary=1:fast_unwind_on_fatal=1:symbolize=1:alloc_dealloc_mismatch=0:detect_odr_violation=0"; }

namespace sim {
Scenario *find_scenario(const std::string &n);
void list_scenarios();
void replay_add(const char *site, uint64_t ctr, uint32_t val);
void replay_ready();
void leak_init(); void leak_start(); void leak_check();
}
using namespace sim;

typedef int (*main_fn)(int, char **);

static void run_child(const std::string &scen, bool first) {
	Scenario *sc = find_scenario(scen);
	if (!sc) { fprintf(stderr, "no scenario %s\n", scen.c_str()); _exit(3); }
	in_sim = 1;
	if (sh->phase) hmix(sh->trace_hash);
	start_main_thread([sc]() {
		in_sim = 1;
		sc->setup();
		if (std::string(sc->entry) == "none") { while (1) block_until("driver", []() { return false; }, -1); }
		std::string sym = std::string(sc->entry) + "_main";
		main_fn m = (main_fn)dlsym(RTLD_DEFAULT, sym.c_str());
		if (!m) harness_error("entry %s not found", sym.c_str());
		std::vector<char *> av;
		for (auto &s : sut_argv) av.push_back(strdup(s.c_str()));
		av.push_back(nullptr);
		leak_start();
		in_sim = 0;
		int r = m((int)av.size() - 1, av.data());
		in_sim = 1;
		tr("main returned %d", r);
		if (on_main_return) on_main_return();
		if (r != 0) violation("*", "exit-code", "main returned %d", r);
		leak_check();
		finish_ok();
	});
}

static int err_fd = -1;
static std::string read_err() {
	std::string s; char b[65536]; off_t o = 0; ssize_t n;
	while ((n = raw6(SYS_pread64, err_fd, (long)b, sizeof b, o, 0, 0)) > 0) { s.append(b, n); o += n; if (s.size() > (4u << 20)) break; }
	return s;
}
static std::string crash_class(const std::string &err, int wst, std::string &msg) {
	std::string cls = "crash";
	size_t p;
	if ((p = err.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
		std::string t = err.substr(p + 25, 200); t = t.substr(0, t.find_first_of(" \n(:"));
		cls = "crash-" + t;
	} else if (WIFSIGNALED(wst)) cls = strf("crash-sig%d", WTERMSIG(wst));
	size_t q = std::string::npos;
	for (const char *k : {"Assertion", "ssertion failed", "CRITICAL", "ERROR **", "Wrong assertion"}) { size_t x = err.find(k); if (x != std::string::npos) { q = x; break; } }
	if (q != std::string::npos) { size_t ls = err.rfind('\n', q); ls = ls == std::string::npos ? 0 : ls + 1; msg = err.substr(ls, std::min<size_t>(300, err.find('\n', q) - ls)) + " | "; cls = "crash-assert"; }
	// first frames in the code under test
	int fr = 0; size_t i = p == std::string::npos ? 0 : p;
	while (fr < 6 && (i = err.find("\n    #", i)) != std::string::npos) {
		size_t e = err.find('\n', i + 1); std::string l = err.substr(i + 5, e - i - 5);
		size_t in = l.find(" in "); if (in != std::string::npos) {
			std::string fn = l.substr(in + 4); std::string f1 = fn.substr(0, fn.find(' '));
			if (l.find("libasan") == std::string::npos && l.find("libc.so") == std::string::npos) { msg += f1 + "<"; ++fr; }
		}
		i = e == std::string::npos ? i + 1 : e;
	}
	return cls;
}
static double wall() { struct timespec ts; raw3(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts, 0); return ts.tv_sec + ts.tv_nsec / 1e9; }

struct Result { int status; std::string prop, cls, msg; };
static double run_timeout = 120;
static void reset_shared() {
	uint32_t n = sh->n_dec;
	(void)n;
	size_t head = offsetof(Shared, dec);
	memset((void *)sh, 0, head);
	sh->phase = 0; sh->persist_len = 0;
	memset(sh->cov, 0, sizeof sh->cov);
}
static Result run_one(const std::string &scen) {
	reset_shared();
	for (;;) {
		if (ftruncate(err_fd, 0)) {}
		lseek(err_fd, 0, SEEK_SET);
		pid_t p = fork();
		if (p == 0) {
			raw3(SYS_dup2, err_fd, 2, 0);
			run_child(scen, true);
			raw3(SYS_exit_group, 0, 0, 0);
		}
		double t0 = wall(); int st = 0; bool killed = false;
		for (;;) {
			int r = (int)raw6(SYS_wait4, p, (long)&st, WNOHANG, 0, 0, 0);
			if (r == p) break;
			if (wall() - t0 > run_timeout && !killed) { raw3(SYS_kill, p, SIGKILL, 0); killed = true; }
			struct timespec ts = {0, 300000}; raw3(SYS_nanosleep, (long)&ts, 0, 0);
		}
		Result R; R.status = sh->status;
		if (sh->status == 4) { sh->phase++; sh->status = 0; continue; }
		if (killed) { R.status = 3; R.msg = "wall clock limit hit"; return R; }
		if (sh->status == 0) {
			std::string e = read_err();
			R.status = 2; R.prop = "*"; R.cls = crash_class(e, st, R.msg);
			if (R.msg.empty()) R.msg = strf("process died, wait status %x: %s", st, e.substr(0, 600).c_str());
			return R;
		}
		R.prop = sh->prop; R.cls = sh->cls; R.msg = sh->msg;
		return R;
	}
}
static std::string js(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) o += strf("\\u%04x", c); else o += c; }
	return o + "\"";
}
static std::string result_json(const Result &r) {
	return strf("{\"status\":%d,\"prop\":%s,\"cls\":%s,\"msg\":", r.status, js(r.prop).c_str(), js(r.cls).c_str()) + js(r.msg.substr(0, 1500)) +
		strf(",\"hash\":\"%016llx\",\"vtime\":%.6f,\"steps\":%llu,\"bb\":%llu,\"dec\":%u,\"switches\":%llu,\"preempts\":%llu", (unsigned long long)sh->trace_hash, sh->vtime / 1e9, (unsigned long long)sh->steps, (unsigned long long)sh->bb, sh->n_dec, (unsigned long long)sh->switches, (unsigned long long)sh->preempts);
}

int main(int argc, char **argv) {
	if (!getenv("SIM_EXEC")) {
		setenv("SIM_EXEC", "1", 1); setenv("TZ", "UTC", 1); setenv("LC_ALL", "C", 1); setenv("G_DEBUG", "fatal-criticals", 1);
		unsetenv("LISTEN_FDS"); setenv("GNUTLS_SYSTEM_PRIORITY_FILE", "/nonexistent", 1);
		unsetenv("OPENSSL_CONF"); setenv("OPENSSL_ia32cap", "~0x4000000000000010:~0x40000", 1); setenv("G_SLICE", "always-malloc", 1);
		personality(ADDR_NO_RANDOMIZE | personality(0xffffffff));
		execv("/proc/self/exe", argv);
	}
	std::string mode = argc > 1 ? argv[1] : "";
	std::string scen, replay, dumpdec, out; uint64_t seed = 1, count = 1, stride = 1; double wl = 1e9; int maxviol = 3; bool verbose = false;
	for (int i = 2; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--scenario") scen = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--count") count = strtoull(nx().c_str(), 0, 10);
		else if (a == "--stride") stride = strtoull(nx().c_str(), 0, 10); else if (a == "--wall") wl = atof(nx().c_str()); else if (a == "--replay") replay = nx();
		else if (a == "--dump") dumpdec = nx(); else if (a == "--trace") trace_on = true; else if (a == "--out") out = nx(); else if (a == "--maxviol") maxviol = atoi(nx().c_str());
		else if (a == "--no-faults") cfg.faults_off = true; else if (a == "--no-preempt") cfg.preempt_off = true; else if (a == "-v") verbose = true;
		else if (a == "--prop") cfg.prop = nx(); else if (a == "--run-timeout") run_timeout = atof(nx().c_str());
	}
	if (mode == "list") { list_scenarios(); return 0; }
	sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	leak_init();
	err_fd = memfd_create("err", 0);
	// pre-load every module so that per-run dlopen is cheap
	if (const char *md = dlsym(RTLD_DEFAULT, "worker_main") ? getenv("SIM_MODDIR") : nullptr) {
		std::vector<std::string> v;
		if (DIR *d = opendir(md)) { while (struct dirent *e = readdir(d)) { std::string n = e->d_name; if (n.size() > 3 && n.substr(n.size() - 3) == ".so") v.push_back(std::string(md) + "/" + n); } closedir(d); }
		std::sort(v.begin(), v.end());
		for (auto &f : v) if (!dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL)) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 3; }
	}
	cfg.scenario = scen; cfg.seed = seed;
	if (mode == "run") {
		if (!replay.empty()) {
			FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 3; }
			char line[512]; cfg.replay = true;
			while (fgets(line, sizeof line, f)) {
				if (line[0] == '#' || line[0] == '\n') continue;
				char k[200], v[200]; unsigned long long c; unsigned val;
				if (sscanf(line, "scenario %199s", v) == 1) { if (scen.empty()) scen = v; cfg.scenario = scen; continue; }
				if (!strncmp(line, "property", 8) || !strncmp(line, "seed", 4) || !strncmp(line, "class", 5) || !strncmp(line, "flags", 5)) { if (strstr(line, "no-faults")) cfg.faults_off = true; continue; }
				if (sscanf(line, "d %199s %llu %u", k, &c, &val) == 3) replay_add(k, c, val);
			}
			fclose(f); replay_ready();
		}
		Result r = run_one(scen);
		if (!dumpdec.empty()) {
			FILE *f = fopen(dumpdec.c_str(), "w");
			fprintf(f, "scenario %s\nseed %llu\n", scen.c_str(), (unsigned long long)seed);
			if (cfg.faults_off) fprintf(f, "flags no-faults\n");
			for (uint32_t i = 0; i < sh->n_dec; ++i) fprintf(f, "d %s %llu %u\n", sh->sites[sh->dec[i].site], (unsigned long long)sh->dec[i].ctr, sh->dec[i].val);
			fclose(f);
		}
		if (verbose) { std::string e = read_err(); fwrite(e.data(), 1, e.size(), stderr); }
		std::string named = ",\"named\":{";
		for (int i = 0; i < sh->n_named; ++i) named += strf("%s\"%s\":%lld", i ? "," : "", sh->named[i].name, (long long)sh->named[i].n);
		printf("%s%s}}\n", result_json(r).c_str(), named.c_str());
		return r.status == 1 ? 0 : r.status == 2 ? 1 : 3;
	}
	if (mode == "batch") {
		double t0 = wall(); uint64_t runs = 0, nontriv = 0; int viol = 0, vn = 0, others = 0, herr = 0; double vt = 0; unsigned long long steps = 0, bbs = 0, sw = 0, pre = 0, ndec = 0;
		std::map<std::string, std::pair<int64_t, int64_t>> named; // sum, runs with
		std::unordered_set<uint64_t> scheds, traces, sigs;
		std::vector<uint8_t> cov(sizeof sh->cov);
		std::string vj, ej;
		for (uint64_t k = 0; k < count && wall() - t0 < wl; ++k) {
			cfg.seed = seed + k * stride;
			Result r = run_one(scen);
			++runs; vt += sh->vtime / 1e9; steps += sh->steps; bbs += sh->bb; sw += sh->switches; pre += sh->preempts; ndec += sh->n_dec;
			for (int i = 0; i < sh->n_named; ++i) { auto &x = named[sh->named[i].name]; x.first += sh->named[i].n; x.second++; }
			scheds.insert(sh->sched_hash); traces.insert(sh->trace_hash); if (sh->sig) { sigs.insert(sh->sig); ++nontriv; }
			for (size_t i = 0; i < cov.size(); ++i) cov[i] |= sh->cov[i];
			if (r.status != 1) {
				std::string j = strf("{\"seed\":%llu,\"r\":", (unsigned long long)cfg.seed) + result_json(r) + "}}";
				if (r.status == 2) { /* violations of other properties are recorded but do not end the search */
					bool mine = cfg.prop.empty() || ("," + r.prop + ",").find("," + cfg.prop + ",") != std::string::npos || r.prop.find('*') != std::string::npos;
					if (!mine && ++others > 2) { if (others > 200) break; continue; }
					vj += (vn++ ? "," : "") + j; if (mine && ++viol >= maxviol) break;
				}
				else { ej += (herr++ ? "," : "") + j; if (herr >= 3) break; }
			}
		}
		uint64_t cb = 0; for (auto b : cov) cb += __builtin_popcount(b);
		std::string o = strf("{\"runs\":%llu,\"wall\":%.3f,\"vtime\":%.3f,\"steps\":%llu,\"bb\":%llu,\"switches\":%llu,\"preempts\":%llu,\"dec\":%llu,\"cov_blocks\":%llu,\"nontrivial\":%llu", (unsigned long long)runs, wall() - t0, vt, steps, bbs, sw, pre, ndec, (unsigned long long)cb, (unsigned long long)nontriv);
		o += ",\"named\":{"; bool f = true;
		for (auto &x : named) { o += strf("%s\"%s\":[%lld,%lld]", f ? "" : ",", x.first.c_str(), (long long)x.second.first, (long long)x.second.second); f = false; }
		o += "},\"violations\":[" + vj + "],\"errors\":[" + ej + "]";
		auto dump = [&](const char *n, std::unordered_set<uint64_t> &s) { o += strf(",\"%s\":\"", n); for (auto h : s) o += strf("%llx ", (unsigned long long)(h & 0xffffffffffull)); o += "\""; };
		dump("scheds", scheds); dump("traces", traces); dump("sigs", sigs);
		o += ",\"cov\":\""; for (auto b : cov) o += strf("%02x", b); o += "\"}\n";
		FILE *fo = out.empty() ? stdout : fopen(out.c_str(), "w");
		fwrite(o.data(), 1, o.size(), fo);
		if (fo != stdout) fclose(fo);
		return 0;
	}
	fprintf(stderr, "usage: simrun list | run --scenario S --seed N [--trace] [--replay F] [--dump F] | batch ...\n");
	return 3;
}
