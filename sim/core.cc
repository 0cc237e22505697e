#include "sim.h"
#include "shared.h"
#include <unordered_map>
#include <queue>
#include <algorithm>
#include <cmath>
#include <cerrno>
#include <climits>
#include <pthread.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <linux/futex.h>
#include <unistd.h>

#include "raw.h"

namespace sim {

bool active = false;
__thread int in_sim = 0;
vtime now_ns = 0;
vtime realtime_off = 1700000000ll * SEC;
bool trace_on = false;
uint64_t trace_hash = 1469598103934665603ull;
Shared *sh = nullptr;
RunCfg cfg;
uint64_t bb_count = 0;
uint64_t spin_limit = 400000;

void raw_write(int fd, const void *p, size_t n) {
	const char *c = (const char *)p;
	while (n) {
		long r = raw3(SYS_write, fd, (long)c, (long)n);
		if (r <= 0) return;
		c += r; n -= r;
	}
}

void trace_text(const char *fmt, ...) {
	char buf[4096];
	int n = snprintf(buf, sizeof buf, "[%12.6f t%d] ", now_ns / 1e9, cur_thread());
	va_list ap; va_start(ap, fmt);
	n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
	buf[n++] = '\n';
	raw_write(1, buf, n);
}

// ---- decisions ---------------------------------------------------------------------------------
struct Site { uint64_t h; uint64_t ctr; uint32_t idx; };
static std::unordered_map<uint64_t, Site> sites;
static std::unordered_map<uint64_t, uint32_t> replay_map; // mix(sitehash,ctr) -> val
static std::map<int, std::vector<std::pair<uint64_t, uint32_t>>> replay_preempts;   // by phase
#define replay_preempt (replay_preempts[sh->phase])
static size_t replay_preempt_pos = 0;

static uint64_t rk(uint64_t h, uint64_t ctr) { return mix(h ^ mix(ctr * 0x9e3779b97f4a7c15ull + 77)); }

void replay_add(const char *site, uint64_t ctr, uint32_t val) {
	if (!strncmp(site, "preempt", 7) && (!site[7] || site[7] == '@')) replay_preempts[site[7] ? atoi(site + 8) : 0].push_back({ctr, val});
	else replay_map[rk(fnv(site), ctr)] = val;
}
void replay_ready() { for (auto &p : replay_preempts) std::sort(p.second.begin(), p.second.end()); }

static Site &get_site(const char *name) {
	char nb[64];
	if (sh->phase) { snprintf(nb, sizeof nb, "%s@%u", name, sh->phase); name = nb; }
	uint64_t h = fnv(name);
	auto it = sites.find(h);
	if (it != sites.end()) return it->second;
	Site s; s.h = h; s.ctr = 0;
	if (sh->n_sites >= MAX_SITES) harness_error("too many decision sites (%s)", name);
	s.idx = sh->n_sites;
	strncpy(sh->sites[s.idx], name, sizeof(sh->sites[0]) - 1);
	sh->n_sites++;
	return sites.emplace(h, s).first->second;
}
static void log_dec(uint32_t idx, uint64_t ctr, uint32_t val) {
	sh->nondefault++;
	if (sh->n_dec < MAX_DEC) { sh->dec[sh->n_dec].site = idx; sh->dec[sh->n_dec].ctr = ctr; sh->dec[sh->n_dec].val = val; sh->n_dec++; }
	else sh->dec_overflow = true;
}
// generic: f(h) computes the seed-mode value
template <class F> static uint32_t draw(const char *name, F f) {
	Site &s = get_site(name);
	uint64_t c = s.ctr++;
	uint32_t v;
	if (cfg.replay) {
		auto it = replay_map.find(rk(s.h, c));
		v = it == replay_map.end() ? 0 : it->second;
	} else v = f(mix(cfg.seed * 0x2545F4914F6CDD1Dull ^ mix(s.h ^ mix(c))));
	if (v) { log_dec(s.idx, c, v); hmix(s.h ^ c); hmix(v); }
	return v;
}
static double u01(uint64_t h) { return (double)(h >> 11) * (1.0 / 9007199254740992.0); }
uint32_t decide(const char *site, uint32_t n) {
	if (n <= 1) return 0;
	uint32_t v = draw(site, [n](uint64_t h) { return (uint32_t)((h >> 16) % n); });
	return v < n ? v : n - 1;
}
uint32_t decide_p(const char *site, double p, uint32_t n) {
	if (n <= 1) return 0;
	uint32_t v = draw(site, [n, p](uint64_t h) -> uint32_t {
		if (u01(h) >= p) return 0;
		return 1 + (uint32_t)(mix(h) % (n - 1));
	});
	return v < n ? v : n - 1;
}
bool chance(const char *site, double p) {
	return 0 != draw(site, [p](uint64_t h) -> uint32_t { return u01(h) < p ? 1 : 0; });
}
int64_t pick(const char *site, int64_t lo, int64_t hi) {
	if (hi <= lo) return lo;
	return lo + decide(site, (uint32_t)std::min<int64_t>(hi - lo + 1, UINT32_MAX));
}
int64_t pick_log(const char *site, int64_t lo, int64_t hi) {
	if (hi <= lo) return lo;
	double span = std::log((double)(hi - lo + 1));
	int64_t v = draw(site, [span](uint64_t h) -> uint32_t { return (uint32_t)(std::exp(u01(h) * span)) - 1; });
	return std::min(hi, lo + v);
}
uint32_t weighted(const char *site, std::initializer_list<int> w) {
	int tot = 0; for (int x : w) tot += x;
	uint32_t v = draw(site, [&](uint64_t h) -> uint32_t {
		int r = (int)((h >> 16) % tot); uint32_t i = 0;
		for (int x : w) { if (r < x) return i; r -= x; ++i; }
		return 0;
	});
	return v < w.size() ? v : 0;
}

// ---- faults -----------------------------------------------------------------------------------
std::vector<FaultKind> faults;
static std::map<std::string, int> fault_idx;
static std::vector<char *> fault_site;
int fault_id(const char *name) {
	Guard g;
	auto it = fault_idx.find(name);
	if (it != fault_idx.end()) return it->second;
	int id = faults.size();
	char *nm = (char *)::operator new(strlen(name) + 8);
	sprintf(nm, "f.%s", name);
	fault_site.push_back(nm);
	faults.push_back({nm + 2, 0.0, 0, 0});
	fault_idx[name] = id;
	return id;
}
void set_fault(const char *name, double rate) { faults[fault_id(name)].rate = rate; }
static bool faults_cleared = false;
void clear_faults() { for (auto &f : faults) f.rate = 0; faults_cleared = true; }
bool fault(int id) {
	FaultKind &f = faults[id];
	f.asked++;
	if (f.rate <= 0 && !cfg.replay) { get_site(fault_site[id]).ctr++; return false; }
	if (faults_cleared) { get_site(fault_site[id]).ctr++; return false; }
	bool r = chance(fault_site[id], f.rate);
	if (r) { f.fired++; tr("FAULT %s", f.name); }
	return r;
}

// ---- counters ---------------------------------------------------------------------------------
static void named_add(const char *pfx, const char *name, int64_t n) {
	char buf[40]; snprintf(buf, sizeof buf, "%s%s", pfx, name);
	for (int i = 0; i < sh->n_named; ++i)
		if (!strcmp(sh->named[i].name, buf)) { sh->named[i].n += n; return; }
	if (sh->n_named >= MAX_NAMED) return;
	strcpy(sh->named[sh->n_named].name, buf);
	sh->named[sh->n_named++].n = n;
}
void probe(const char *name, uint32_t n) { Guard g; named_add("probe.", name, n); }
void stat_add(const char *name, int64_t n) { Guard g; named_add("stat.", name, n); }
void nontrivial(uint64_t sig) { sh->sig = mix(sh->sig ^ sig); }

// ---- events -----------------------------------------------------------------------------------
struct Ev { vtime t; uint64_t seq; std::function<void()> f; };
static std::map<std::pair<vtime, uint64_t>, std::function<void()>> evq;
static std::unordered_map<uint64_t, vtime> evidx;
static uint64_t ev_seq = 0;
EvId at(vtime t, std::function<void()> f) {
	Guard g;
	if (t < now_ns) t = now_ns;
	uint64_t id = ++ev_seq;
	evq.emplace(std::make_pair(t, id), std::move(f));
	evidx[id] = t;
	return id;
}
void cancel(EvId id) {
	Guard g;
	auto it = evidx.find(id);
	if (it == evidx.end()) return;
	evq.erase({it->second, id});
	evidx.erase(it);
}
static bool running_event = false;
static void run_due() {
	if (running_event) return;
	running_event = true;
	while (!evq.empty() && evq.begin()->first.first <= now_ns) {
		auto it = evq.begin();
		auto f = std::move(it->second);
		evidx.erase(it->first.second);
		evq.erase(it);
		kernel_changed();
		f();
	}
	running_event = false;
}

// ---- threads ----------------------------------------------------------------------------------
struct Th {
	int id; int fut = 0; bool done = false; bool blocked = false;
	std::function<bool()> pred; vtime deadline = -1; uint64_t gen = 0; bool predval = false;
	vtime stalled = 0; const char *why = ""; vtime last_idle = 0; uint64_t ticks_since_idle = 0; bool timeout = false;
};
static std::vector<Th *> ths;
static int cur = -1;
static uint64_t kgen = 1;
static double switch_rate = 0, preempt_rate = 0;
static uint64_t next_preempt = UINT64_MAX, last_yield_bb = 0, last_sys_bb = 0;
static uint64_t tick_total = 0;
vtime stalled_total = 0, busy_total = 0; bool busy_is_stall = true; int busy_max = 5000;
int cur_thread() { return cur; }
int nthreads() { return (int)ths.size(); }
void kernel_changed() { ++kgen; }
void set_switch_rate(double p) { switch_rate = p; }
static void arm_preempt() {
	if (cfg.replay) {
		while (replay_preempt_pos < replay_preempt.size() && replay_preempt[replay_preempt_pos].first <= bb_count) ++replay_preempt_pos;
		next_preempt = replay_preempt_pos < replay_preempt.size() ? replay_preempt[replay_preempt_pos].first : UINT64_MAX;
		return;
	}
	if (preempt_rate <= 0) { next_preempt = UINT64_MAX; return; }
	uint64_t h = mix(cfg.seed * 31 + mix(bb_count ^ 0xabcdef));
	double g = -std::log(1.0 - u01(h)) / preempt_rate;
	next_preempt = bb_count + 1 + (uint64_t)std::min(g, 1e9);
}
void set_preempt(double per_bb) { preempt_rate = per_bb; arm_preempt(); }

static void fut_wait(int *w) {
	while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
	__atomic_store_n(w, 0, __ATOMIC_RELEASE);
}
static void fut_wake(int *w) {
	__atomic_store_n(w, 1, __ATOMIC_RELEASE);
	raw6(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static bool runnable(Th *t) {
	if (t->done || t->stalled > now_ns) return false;
	if (!t->blocked) return true;
	if (t->deadline >= 0 && t->deadline <= now_ns) { t->timeout = true; return true; }
	if (t->gen != kgen) { t->gen = kgen; t->predval = t->pred(); }
	return t->predval;
}
static void collect(std::vector<int> &v) {
	v.clear();
	int n = ths.size();
	// current first, then cyclic order
	for (int k = 0; k < n; ++k) { int i = (cur + k) % n; if (runnable(ths[i])) v.push_back(i); }
}
static std::vector<int> rl;
static void switch_to(int n) {
	if (n == cur) return;
	sh->switches++;
	Th *me = ths[cur], *o = ths[n];
	sh->sched_hash = mix(sh->sched_hash ^ (uint64_t)(n + 1));
	cur = n;
	fut_wake(&o->fut);
	fut_wait(&me->fut);
}
// pick the next thread to run. self may be blocked.
static bool only_timers_far();
static void reschedule(bool forced_off_self, int choice_mode) {
	for (;;) {
		run_due();
		collect(rl);
		if (!rl.empty()) break;
		vtime nx = INT64_MAX;
		if (!evq.empty()) nx = evq.begin()->first.first;
		for (Th *t : ths) {
			if (t->done) continue;
			if (t->stalled > now_ns) nx = std::min(nx, t->stalled);
			else if (t->blocked && t->deadline >= 0) nx = std::min(nx, t->deadline);
		}
		if (nx == INT64_MAX) {
			std::string s;
			for (Th *t : ths) if (!t->done) { s += " t"; s += std::to_string(t->id); s += ":"; s += t->why; }
			violation("*", "deadlock", "no thread can ever run again and no event is pending:%s", s.c_str());
		}
		if (nx > now_ns) now_ns = nx;
		for (Th *t : ths) { t->ticks_since_idle = 0; t->last_idle = now_ns; }
		kernel_changed();
	}
	(void)forced_off_self;
	int n;
	if (rl.size() == 1) n = rl[0];
	else if (choice_mode == 1) n = rl[1 % rl.size()];             // deterministic round robin (anti spin)
	else if (rl[0] == cur) n = rl[0];
	else n = rl[decide("sched.pick", rl.size())];
	Th *me = ths[cur];
	(void)me;
	switch_to(n);
}
void sched_point(const char *why) {
	if (!active || cur < 0 || running_event) return;
	Th *me = ths[cur];
	me->why = why;
	last_yield_bb = bb_count;
	run_due();
	if (FAULT("stall")) {
		vtime d = (vtime)pick_log("stall.ms", 1, 4000) * MS;
		me->stalled = now_ns + d; stalled_total += d;
		tr("stall t%d %lld ms", cur, (long long)(d / MS));
		reschedule(true, 0);
		return;
	}
	if (FAULT("busy")) {   // the CPU is busy with something else for a moment
		vtime d = (vtime)pick_log("busy.us", 10, busy_max) * US; busy_total += d; if (busy_is_stall) stalled_total += d;
		me->stalled = now_ns + d; reschedule(true, 0);
		return;
	}
	if (ths.size() > 1) {
		collect(rl);
		if (rl.size() > 1) {
			uint32_t k = decide_p("sched.switch", switch_rate, rl.size());
			if (k) switch_to(rl[k]);
		}
	}
}
// just after a system call that may have woken another thread: let that one run before the caller goes on
void wake_point(const char *why) {
	if (!active || cur < 0 || running_event || ths.size() < 2 || switch_rate <= 0) return;
	ths[cur]->why = why;
	last_yield_bb = bb_count;
	collect(rl);
	if (rl.size() < 2) return;
	uint32_t k = decide_p("sched.wake", std::max(switch_rate, 0.2), rl.size());
	if (k) switch_to(rl[k]);
}
bool block_until(const char *why, std::function<bool()> pred, vtime deadline) {
	Th *me = ths[cur];
	if (running_event) harness_error("blocking call inside an event: %s", why);
	me->why = why;
	if (pred()) return true;
	if (deadline >= 0 && deadline <= now_ns) return false;
	me->blocked = true; me->pred = std::move(pred); me->deadline = deadline; me->gen = 0; me->timeout = false;
	last_yield_bb = bb_count;
	reschedule(false, 0);
	// we are running again: runnable() said ok
	me->blocked = false;
	bool r = !me->timeout || me->pred();
	me->pred = nullptr; me->deadline = -1; me->timeout = false;
	return r;
}
void progress() { if (cur >= 0) { ths[cur]->ticks_since_idle = 0; } }
static vtime run_limit = 0;
void syscall_tick(vtime cost) {
	now_ns += cost;
	last_sys_bb = bb_count;
	++tick_total;
	sh->steps = tick_total;
	Th *me = ths[cur];
	if (++me->ticks_since_idle > spin_limit) violation("*", "spin", "thread t%d made %llu system calls without ever going idle or moving data (last wait: %s)", cur, (unsigned long long)me->ticks_since_idle, me->why);
	if (tick_total > 6000000) violation("*", "livelock", "run exceeded the step budget");
	if (!running_event) run_due();
}
void delay_self(vtime d) { Th *me = ths[cur]; if (running_event) return; me->stalled = now_ns + d; stalled_total += d; last_yield_bb = bb_count; reschedule(true, 0); }
void stall_thread(int th, vtime d) { if (th < (int)ths.size()) ths[th]->stalled = now_ns + d; }

struct Boot { std::function<void()> fn; int id; };
// called by pthread_create interposer
int thread_register() { Th *t = new Th; ths.reserve(1024); /* a starting thread reads ths[id] without holding the baton: never reallocate */ t->id = ths.size(); ths.push_back(t); kernel_changed(); return t->id; }
void thread_begin(int id) { fut_wait(&ths[id]->fut); }
void thread_end(int id) {
	Th *me = ths[id];
	me->done = true; kernel_changed();
	tr("thread t%d ends", id);
	// pick another thread; we never come back
	for (;;) {
		run_due(); collect(rl);
		if (!rl.empty()) break;
		vtime nx = INT64_MAX;
		if (!evq.empty()) nx = evq.begin()->first.first;
		for (Th *t : ths) { if (t->done) continue; if (t->stalled > now_ns) nx = std::min(nx, t->stalled); else if (t->blocked && t->deadline >= 0) nx = std::min(nx, t->deadline); }
		if (nx == INT64_MAX) violation("*", "deadlock", "no thread can ever run again after a thread ended");
		if (nx > now_ns) now_ns = nx;
		for (Th *t : ths) t->ticks_since_idle = 0;
		kernel_changed();
	}
	int n = rl[decide("sched.pick", rl.size())];
	sh->switches++; sh->sched_hash = mix(sh->sched_hash ^ (uint64_t)(n + 1));
	cur = n;
	fut_wake(&ths[n]->fut);
}
bool thread_done(int id) { return ths[id]->done; }

void start_main_thread(std::function<void()> fn) {
	Th *t = new Th; t->id = 0; ths.push_back(t); cur = 0;
	active = true;
	in_sim = 0;
	fn();
	in_sim = 1;
}

void yield_bb() {
	Guard g;
	if (running_event) { next_preempt = bb_count + 1000; return; }
	if (bb_count - last_sys_bb > 60000000ull) violation("*", "cpu-loop", "thread t%d executed %llu basic blocks without a system call", cur, (unsigned long long)(bb_count - last_sys_bb));
	bool forced = bb_count - last_yield_bb > 400000;
	last_yield_bb = bb_count;
	collect(rl);
	if (rl.size() > 1) {
		uint32_t k = 0;
		if (forced && !(next_preempt <= bb_count)) k = 1;
		else if (cfg.replay) {
			if (replay_preempt_pos < replay_preempt.size() && replay_preempt[replay_preempt_pos].first == bb_count) k = replay_preempt[replay_preempt_pos].second % rl.size();
			else if (forced) k = 1;
		} else k = 1 + (uint32_t)(mix(cfg.seed ^ mix(bb_count)) % (rl.size() - 1));
		if (k) {
			if (!forced || next_preempt <= bb_count) { Site &s = get_site("preempt"); log_dec(s.idx, bb_count, k); sh->preempts++; }
			hmix(bb_count); hmix(k);
			tr("preempt t%d -> t%d bb %llu", cur, rl[k], (unsigned long long)bb_count);
			arm_preempt();
			switch_to(rl[k]);
			return;
		}
	}
	arm_preempt();
}

// ---- results ----------------------------------------------------------------------------------
static void fill() {
	sh->trace_hash = trace_hash; sh->vtime = now_ns; sh->bb = bb_count; sh->steps = tick_total;
	for (auto &f : faults) { if (f.fired) named_add("fault.", f.name, f.fired); }
}
[[noreturn]] static void die() { for (;;) raw3(SYS_exit_group, 0, 0, 0); }
void request_restart(const std::string &state) {
	Guard g; if (sh->status != 0) die();
	fill(); if (state.size() > sizeof sh->persist) { strcpy(sh->msg, "saved state too large"); sh->status = 3; die(); }
	memcpy(sh->persist, state.data(), state.size()); sh->persist_len = state.size();
	sh->status = 4; die();
}
int phase() { return sh->phase; }
std::string saved_state() { return std::string((char *)sh->persist, sh->persist_len); }
void violation(const char *prop, const char *cls, const char *fmt, ...) {
	++in_sim;
	if (sh->status != 0) die();
	va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
	strncpy(sh->prop, prop, sizeof sh->prop - 1); strncpy(sh->cls, cls, sizeof sh->cls - 1);
	if (trace_on) trace_text("VIOLATION %s %s: %s", prop, cls, sh->msg);
	fill(); sh->status = 2; die();
}
void finish_ok() { ++in_sim; fill(); sh->status = 1; if (trace_on) trace_text("run ends ok"); die(); }
void harness_error(const char *fmt, ...) {
	++in_sim;
	va_list ap; va_start(ap, fmt); vsnprintf(sh->msg, sizeof sh->msg, fmt, ap); va_end(ap);
	if (trace_on) trace_text("HARNESS ERROR: %s", sh->msg);
	fill(); sh->status = 3; die();
}

} // namespace sim

// gcc -fsanitize-coverage=trace-pc callback, called at every basic block of the code under test
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc(void) {
	using namespace sim;
	if (!active || in_sim) return;
	++bb_count;
	uint64_t pc = (uint64_t)__builtin_return_address(0);
	uint32_t b = (uint32_t)((pc * 0x9E3779B97F4A7C15ull) >> 47);
	sh->cov[b >> 3] |= 1 << (b & 7);
	if (__builtin_expect(bb_count >= next_preempt || bb_count - last_yield_bb > 400000, 0)) yield_bb();
}

// ---- private allocator for simulator C++ objects: keeps them out of the code under test's heap ---
#include <new>
static char *ar_cur, *ar_end;
static void *ar_free[64];
static pthread_spinlock_t ar_dummy;
static inline int ar_cls(size_t n) { // n includes header
	if (n <= 512) return (int)((n + 15) / 16);      // 1..32
	int c = 33; size_t s = 1024; while (s < n) { s <<= 1; ++c; } return c;
}
static inline size_t ar_size(int c) { return c <= 32 ? (size_t)c * 16 : (size_t)1024 << (c - 33); }
static void *ar_alloc(size_t n) {
	n += 16;
	int c = ar_cls(n);
	void *p;
	if (ar_free[c]) { p = ar_free[c]; ar_free[c] = *(void **)((char *)p + 16); }
	else {
		size_t s = ar_size(c);
		if ((size_t)(ar_end - ar_cur) < s) {
			size_t m = s > (16u << 20) ? s : (16u << 20);
			ar_cur = (char *)raw6(SYS_mmap, 0, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			ar_end = ar_cur + m;
		}
		p = ar_cur; ar_cur += s;
	}
	*(int *)p = c;
	return (char *)p + 16;
}
static void ar_dealloc(void *q) {
	if (!q) return;
	void *p = (char *)q - 16;
	int c = *(int *)p;
	*(void **)((char *)p + 16) = ar_free[c];
	ar_free[c] = p;
}
void *operator new(size_t n) { return ar_alloc(n ? n : 1); }
void *operator new[](size_t n) { return ar_alloc(n ? n : 1); }
void operator delete(void *p) noexcept { ar_dealloc(p); }
void operator delete[](void *p) noexcept { ar_dealloc(p); }
void operator delete(void *p, size_t) noexcept { ar_dealloc(p); }
void operator delete[](void *p, size_t) noexcept { ar_dealloc(p); }
