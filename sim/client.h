#pragma once
#include "world.h"
namespace sim {
struct Req {
	std::string bytes; std::string name; bool head = false;
	bool expect_close = false;              // the client asked for / the protocol implies close after the response
	std::function<void(Response &)> check;
	vtime think = 0;                        // delay after the previous response (or connect)
	uint64_t tag = 0;
	int64_t trickle = 0;                    // >0: send in pieces of at most this many bytes with `gap` between
	vtime gap = 0;
	int cut = 0; vtime cut_delay = 0;       // after sending everything: 1 close, 2 RST, 3 half-close
	vtime giveup = -1;                      // abort the connection this long after the request was sent
	int64_t aux = 0, aux2 = 0;
	// filled in
	vtime t_sent = 0, t_full = 0, prev_done = 0;
	bool started = false, answered = false;
};
struct Client : Peer {
	std::deque<Req> reqs; size_t next = 0, got = 0; int depth = 1; // pipeline depth
	RespParser rp; int id; std::string from; LinkOpts link;
	bool connected = false, over = false, saw_close = false; vtime t_start = 0, t_end = 0, t_last_rx = 0, t_conn = 0;
	uint64_t rx = 0; int refused = 0; int max_retry = 0;
	// slow reader
	int64_t pause_every = 0; vtime pause_for = 0; int64_t since_pause = 0; vtime pause_budget = 20 * SEC;
	// abort plan: -1 none
	int64_t abort_rx = -1; bool abort_rst = false; vtime abort_at = -1; bool aborted = false;
	bool half_close_after_send = false;
	enum End { OPEN, DONE, EOF_CLEAN, EOF_MID, RESET, REFUSED, ABORTED, MALFORMED } end = OPEN;
	std::function<void(Client *)> on_end;        // connection over
	std::function<void(Client *, Req &, Response &)> on_resp;
	std::function<void(Client *, Req &)> on_sent; // request starts to be sent
	vtime t_last_resp = 0;
	std::function<void(Client *)> on_all;        // every planned response received; default: close
	std::function<void(Client *, const char *, size_t)> on_raw;  // after protocol switch
	bool upgraded = false;
	std::function<void(const std::string &)> connector;          // replaces net_connect
	const char *malformed_prop = "*";
	std::string raw_rx;
	bool keep_raw = false;

	void start(const std::string &addr);
	void on_connect() override; void on_refused(int) override; void on_data(const char *, size_t) override; void on_eof() override; void on_reset() override;
	void push_more();
	void send_req(size_t i);
	void trickle_step(size_t i, size_t off);
	void sent_all(size_t i);
	void giveup(bool rst);
	void finish(End e);
	bool all_answered() const { return got >= reqs.size(); }
	std::string desc() const;
};
Client *new_client();
}
