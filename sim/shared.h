#pragma once
#include <cstdint>
namespace sim {
struct NamedCount { char name[40]; int64_t n; };
struct DecEnt { uint32_t site; uint32_t val; uint64_t ctr; };
constexpr int MAX_NAMED = 256, MAX_SITES = 1024, MAX_DEC = 1 << 20, COV_BITS = 1 << 17;
struct Shared {
	volatile int status;  // 0 running/crashed 1 ok 2 violation 3 harness error 4 restart requested
	char prop[16];
	char cls[64];
	char msg[4000];
	uint64_t trace_hash, sched_hash, bb, steps, switches, preempts;
	int64_t vtime;
	uint64_t sig;
	uint64_t nondefault;
	int n_named;
	NamedCount named[MAX_NAMED];
	int n_sites;
	char sites[MAX_SITES][48];
	uint32_t n_dec; bool dec_overflow;
	DecEnt dec[MAX_DEC];
	// persistent area for crash/restart scenarios
	uint32_t phase;
	uint64_t persist_len;
	uint8_t cov[COV_BITS / 8];
	uint8_t persist[8 << 20];
};
extern Shared *sh;
}
