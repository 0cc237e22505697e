// Deterministic simulator core: PRNG/decisions, virtual time, thread baton, trace, results.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <type_traits>

namespace sim {

typedef int64_t vtime;  // virtual nanoseconds
constexpr vtime US = 1000, MS = 1000000, SEC = 1000000000;

constexpr uint64_t fnv(const char *s, uint64_t h = 1469598103934665603ull) {
	while (*s) { h ^= (uint8_t)*s++; h *= 1099511628211ull; }
	return h;
}
inline uint64_t mix(uint64_t x) {
	x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

extern bool active;              // a run is in progress
extern __thread int in_sim;      // >0: executing simulator code: interposed calls pass through
struct Guard { Guard() { ++in_sim; } ~Guard() { --in_sim; } };

// ---- decisions -------------------------------------------------------------------------------
// Every choice is decide(site, n): uniform 0..n-1 in seed mode; in replay mode the recorded value or 0.
// 0 must be the benign / simplest choice at every site.
uint32_t decide(const char *site, uint32_t n);
// like decide but 0 with probability 1-p, otherwise uniform 1..n-1
uint32_t decide_p(const char *site, double p, uint32_t n);
bool chance(const char *site, double p);
// pick value in [lo,hi]; default lo
int64_t pick(const char *site, int64_t lo, int64_t hi);
// log-uniform-ish pick in [lo,hi]; default lo
int64_t pick_log(const char *site, int64_t lo, int64_t hi);
// weighted: returns index; default 0
uint32_t weighted(const char *site, std::initializer_list<int> w);

// ---- faults ----------------------------------------------------------------------------------
// Fault kinds: rate set by scenario (swarm); fault() returns true if the fault fires now.
struct FaultKind { const char *name; double rate; uint32_t fired; uint32_t asked; };
extern std::vector<FaultKind> faults;
int fault_id(const char *name);
void set_fault(const char *name, double rate);
void clear_faults();             // all rates to 0 (e.g. "faults stop now")
bool fault(int id);
#define FAULT(name) ([]() -> bool { static int id_ = ::sim::fault_id(name); return ::sim::fault(id_); }())

// ---- probes ----------------------------------------------------------------------------------
void probe(const char *name, uint32_t n = 1);   // "this rare condition was hit"

// ---- time & events ---------------------------------------------------------------------------
extern vtime now_ns;
extern vtime realtime_off;      // realtime = monotonic + off
inline vtime now() { return now_ns; }
typedef uint64_t EvId;
EvId at(vtime t, std::function<void()> f);
inline EvId after(vtime d, std::function<void()> f) { return at(now_ns + (d > 0 ? d : 0), std::move(f)); }
void cancel(EvId id);

// ---- threads ---------------------------------------------------------------------------------
void start_main_thread(std::function<void()> fn); // registers calling thread as thread 0
void sched_point(const char *why);            // may switch (seeded)
// block current thread until pred() true or deadline (<0: none). returns true if pred, false if timeout
bool block_until(const char *why, std::function<bool()> pred, vtime deadline);
void syscall_tick(vtime cost = 1 * US);       // advances virtual time, runs due events
void kernel_changed();                        // invalidate cached predicate results
int cur_thread();
extern uint64_t bb_count;
extern uint64_t spin_limit;
void progress();                              // something useful happened (resets spin detection)
extern vtime late_grid;
void set_preempt(double per_bb);              // probability of preemption per basic block
void set_switch_rate(double p);
void wake_point(const char *why);
void stall_thread(int th, vtime d);
void delay_self(vtime d);       // the calling thread is not scheduled for d
extern vtime busy_total; extern bool busy_is_stall; extern int busy_max;   // short pauses of a thread (fault "busy"); counted as stalls unless the scenario says otherwise
extern vtime stalled_total;     // sum of injected thread stalls
int nthreads();
void yield_bb();

// ---- results ---------------------------------------------------------------------------------
// property tags: violation("P03", "cls", fmt...) ; first violation ends the run
[[noreturn]] void violation(const char *prop, const char *cls, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void finish_ok();
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void stat_add(const char *name, int64_t n);   // named counters aggregated in the evidence
void nontrivial(uint64_t sig);                // signature of what this run exercised

// ---- trace -----------------------------------------------------------------------------------
extern bool trace_on;
extern uint64_t trace_hash;
void trace_text(const char *fmt, ...);
inline void hmix(uint64_t v) { trace_hash = (trace_hash ^ v) * 0x100000001b3ull; trace_hash ^= trace_hash >> 29; }
inline void harg(const char *s) { while (s && *s) hmix((uint8_t)*s++); }
inline void harg(const std::string &s) { for (char c : s) hmix((uint8_t)c); }
template <class T> inline typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type harg(T v) { hmix((uint64_t)v); }
inline void harg(double d) { hmix((uint64_t)(d * 1e6)); }
inline void hall() {}
template <class A, class... R> inline void hall(A a, R... r) { harg(a); hall(r...); }
template <class... A> inline void tr(const char *fmt, A... a) {
	hmix((uint64_t)now_ns); hmix(fnv(fmt)); hall(a...);
	if (trace_on) trace_text(fmt, a...);
}

// run configuration (set by runner before scenario)
struct RunCfg {
	uint64_t seed = 1;
	bool replay = false;
	std::string scenario;
	std::string config;   // variant name
	std::string prop;     // property being checked
	bool faults_off = false;
	bool preempt_off = false;
};
extern RunCfg cfg;

void raw_write(int fd, const void *p, size_t n);

} // namespace sim
