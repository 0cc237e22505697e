// Common scenario skeleton: client set, end-of-run sequence (faults stop, liveness probe, conservation, shutdown).
#pragma once
#include "client.h"
namespace sim {

extern std::vector<std::string> leak_ignore;   // allocation sites (substring of the stack) which may be left at exit
struct EndOpts {
	const char *live_prop = "*";          // tag for "clients never finished"
	vtime client_deadline = 3000 * SEC;    // after traffic start
	vtime idle_deadline = 120 * SEC;      // for connections/fds to go back to baseline
	std::string probe_path = "/probe";    // answered 200 by the configuration; empty: no probe
	std::string probe_host = "probe";
	vtime probe_bound = 60 * SEC;
	int fd_slack = 0;                     // descriptors that may legitimately remain (pooled backend connections, logs)
	bool check_fds = true;
	std::function<bool()> extra_done;     // other actors finished?
	std::function<std::string()> idle_cond;  // non-empty: not idle yet, why
	std::function<void()> on_idle;        // after everything is idle, before shutdown
	std::function<void()> final_check;    // after main returned
	vtime stop_bound = 60 * SEC;
};
vtime late_wave();                          // now and then: start offset of minutes (idle worker in between: garbage collection, 5 min statistics)
void track(Client *c);                    // register: run waits for it
void run_to_end(const EndOpts &o);        // call once the traffic has been scheduled
std::string req(const std::string &method, const std::string &path, const std::string &headers = "", const std::string &body = "", int minor = 1);
extern std::vector<Client *> all_clients;
}
