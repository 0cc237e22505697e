// Scenario-side helpers: HTTP client actor, response parser, server lifecycle.
#pragma once
#include "kernel.h"
#include "shared.h"

namespace sim {

struct Header { std::string k, v; };
struct Response {
	int status = 0; int minor = 1; std::string reason;
	std::vector<Header> h;
	std::string body;
	bool head_done = false, complete = false, until_close = false, chunked = false;
	int64_t clen = -1;
	vtime t_first = 0, t_done = 0;
	std::string get(const char *k) const;
	bool has(const char *k) const;
	int count(const char *k) const;
	int n1xx = 0;
	std::string raw_head;
};
// incremental strict HTTP/1.x response parser
struct RespParser {
	std::deque<bool> head_reqs;     // per outstanding request: was it HEAD?
	Response cur; std::string buf; bool in_resp = false;
	enum { HEAD, BODY_CL, BODY_CHUNK_SZ, BODY_CHUNK, BODY_CHUNK_CRLF, BODY_TRAILER, BODY_EOF } st = HEAD;
	int64_t left = 0;
	std::string error; int n1xx_pending = 0; bool stopped = false;
	std::function<void(Response &)> on_response;
	bool feed(const char *p, size_t n);   // false on error
	bool eof();                     // connection closed: returns true if that was at a message boundary (or ended an until-close body)
	bool at_boundary() const { return st == HEAD && buf.empty() && !in_resp; }
private:
	bool step(); bool head(const std::string &h); void done();
};

bool ieq(const std::string &a, const std::string &b);
std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// deterministic content: byte i of object key
std::string content(uint64_t key, size_t n);

// decode helpers
bool gunzip(const std::string &in, std::string &out, int mode); // mode 0 gzip,1 deflate(zlib or raw)
bool bunzip(const std::string &in, std::string &out);

// ---- server under test -----------------------------------------------------------------------------
extern std::string listen_addr;
struct ServerCfg {
	std::vector<std::string> modules;
	int workers = 1;
	std::string setup;       // extra setup statements
	std::string actions;     // main actions
	int io_timeout = -1;
	int tasklet_threads = -1;
	double stat_ttl = -1;
	bool log_stderr = true;
	std::string listen = "127.0.0.1:8080";
	std::vector<std::string> extra_args;
};
void write_config(const ServerCfg &c);
void when_listening(std::function<void()> f);   // run f once the server listens
extern std::vector<std::string> more_listen; // further addresses to wait for
void common_knobs(ServerCfg &c, bool faults);   // swarm: workers, scheduling, link, fault rates
LinkOpts rand_link();
void send_sigterm();
bool raise_signal(int sig);
void request_restart(const std::string &state);  // the process is gone (crash); the scenario runs again with phase() + 1 and saved_state()
int phase(); std::string saved_state();
extern int rlimit_nofile;
extern int baseline_fds;
void note_baseline();
void leak_mark();                        // memory allocated from now on has to be gone at exit
extern std::function<void()> on_main_return;
extern std::function<void(int)> on_exit_call;
int64_t sut_alloc_bytes();

struct Scenario { const char *name; void (*setup)(); const char *entry; };
void add_scenario(const Scenario &s);
struct ScenarioReg { ScenarioReg(const char *n, void (*f)(), const char *entry = "worker") { add_scenario({n, f, entry}); } };

extern std::vector<std::string> sut_argv;
}
