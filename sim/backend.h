// Backend actors speaking HTTP, SCGI and FastCGI, driven by a per-request plan.
#pragma once
#include "harness.h"
namespace sim {
enum BKind { B_PROXY, B_SCGI, B_FCGI };
enum BFault { BF_NONE, BF_TRUNC_FIN, BF_TRUNC_RST, BF_GARBAGE, BF_HANG, BF_CLOSE_BEFORE, BF_RST_BEFORE, BF_FCGI_STATUS, BF_FCGI_VERSION, BF_N };
struct Plan {
	int id = 0; BKind kind = B_PROXY; std::string tag;
	// request
	std::string method = "GET", path, query; std::vector<Header> headers; std::string body; bool has_body = false, chunked = false, streamed = false, head = false;
	// response
	int status = 200; std::vector<Header> rh; std::string rbody; enum { CL, CHUNKED, CLOSE } framing = CL; bool http10 = false; bool interim = false;
	BFault fault = BF_NONE; size_t cut = 0; vtime delay = 0; bool early = false;
	int64_t piece = 0; vtime gap = 0; std::string wire; size_t head_len = 0, body_off = 0;
	bool nobody = false;   // response can not have a body (HEAD, 204, 304)
	// observed
	int seen = 0; bool complete = false; size_t body_seen = 0; bool responded = false, all_sent = false, lost = false;
	bool client_gave_up = false;   // client cut the upload: request must never be complete
	bool answered = false, backend_closed = false; vtime t_seen = 0, t_closed = 0;
	size_t wire_sent = 0;
};
extern std::map<int, Plan *> plans;
struct BackConn : Peer {
	BKind kind; Plan *p = nullptr; std::string in; bool heads = false, over = false, replied = false; int64_t want = -1; std::string body;
	bool fcgi_params_done = false, fcgi_begin = false; std::string params; int variant = 0;
	std::function<void(BackConn *)> on_complete;      // replaces the default reply
	std::string addr;
	BackConn(BKind k) : kind(k) { ++open_now; } ~BackConn() {}
	static int open_now, total;
	void on_data(const char *d, size_t n) override;
	void on_eof() override; void on_reset() override;
	void gone();
	void got_head(std::string method, std::string target, std::map<std::string, std::string> env);
	void got_body(const char *d, size_t n);
	void check_complete();
	void reply(); void push(size_t off);
	void finish_wire();
};
struct Backend { BKind kind; std::string addr; BackendListener l; bool down = false; ConnPolicy down_policy = CP_REFUSE; int fails = 0; };
Backend *add_backend(BKind k, const std::string &addr);
Plan *rand_plan(BKind k, bool faults, size_t maxbody);
void build_wire(Plan *p);
std::string plan_request(Plan *p, bool keepalive = true);
void check_plan_response(Plan *p, Response &r);
extern int connect_failures; extern vtime connect_trouble_until;   // a connection attempt may still be failing until then
}
