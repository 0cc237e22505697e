#include "client.h"
#include <algorithm>
#include <cstdlib>
namespace sim {
static int client_seq = 0;
Client *new_client() {
	Client *c = new Client; c->id = ++client_seq;
	c->from = strf("10.0.%d.%d:%d", (c->id >> 8) & 255, c->id & 255, 30000 + c->id);
	c->link = LinkOpts();
	return c;
}
std::string Client::desc() const { return strf("client %d (next %zu got %zu of %zu)", id, next, got, reqs.size()); }
void Client::start(const std::string &addr) {
	t_start = now();
	rp = RespParser();
	rp.on_response = [this](Response &r) {
		if (got >= next) violation(malformed_prop, "extra-response", "%s: response without request", desc().c_str());
		Req &q = reqs[got++];
		q.answered = true; q.prev_done = t_last_resp; t_last_resp = now();
		tr("client %d resp %d for %s body %llu", id, r.status, q.name.c_str(), (unsigned long long)r.body.size());
		if (ieq(r.get("Connection"), "close")) saw_close = true;
		if (r.status == 101) { upgraded = true; rp.stopped = true; }
		if (on_resp) on_resp(this, q, r);
		if (q.check && !over) q.check(r);
		if (over) return;
		if (!upgraded) push_more();
	};
	if (connector) connector(addr); else net_connect(addr, this, from, link);
	if (abort_at >= 0) after(abort_at, [this]() { if (!over) { aborted = true; if (s) { if (abort_rst) s->abort(); else s->close(); } finish(ABORTED); } });
}
void Client::on_connect() { connected = true; t_conn = now(); tr("client %d connected", id); push_more(); }
void Client::on_refused(int) { finish(REFUSED); }
void Client::push_more() {
	if (over) return;
	if (all_answered()) {
		if (on_all) on_all(this); else { s->close(); finish(DONE); }
		return;
	}
	while (next < reqs.size() && (int)(next - got) < depth) {
		size_t i = next;
		if (i && !reqs[i - 1].t_full) return;        // previous request still being sent
		++next;
		rp.head_reqs.push_back(reqs[i].head);
		if (reqs[i].think > 0) after(reqs[i].think, [this, i]() { if (!over) { send_req(i); push_more(); } });
		else send_req(i);
	}
}
void Client::send_req(size_t i) {
	Req &q = reqs[i];
	q.t_sent = now(); q.started = true;
	tr("client %d sends %s (%llu bytes)", id, q.name.c_str(), (unsigned long long)q.bytes.size());
	if (on_sent) on_sent(this, q);
	if (trace_on && getenv("SIM_DUMP")) fprintf(stderr, "<<<%s>>>\n", q.bytes.c_str());
	if (q.trickle > 0 && (int64_t)q.bytes.size() > q.trickle) trickle_step(i, 0);
	else { s->send(q.bytes); sent_all(i); }
}
void Client::giveup(bool rst) { if (over) return; aborted = true; if (rst) s->abort(); else s->close(); finish(ABORTED); }
void Client::sent_all(size_t i) {
	Req &q = reqs[i];
	q.t_full = now();
	if (half_close_after_send && i + 1 == reqs.size()) s->shut_wr();
	if (q.cut) after(q.cut_delay, [this, i]() { if (over) return; tr("client %d cuts %d", id, reqs[i].cut); if (reqs[i].cut == 3) s->shut_wr(); else giveup(reqs[i].cut == 2); });
	if (q.cut == 3) after(q.cut_delay + 30 * SEC, [this]() { giveup(false); });
	if (q.giveup >= 0) after(q.giveup, [this, i]() { if (!over && got <= i) { tr("client %d gives up", id); giveup(decide("giveup.rst", 2)); } });
}
void Client::trickle_step(size_t i, size_t off) {
	if (over) return;
	Req &q = reqs[i];
	size_t n = std::min<size_t>(q.trickle, q.bytes.size() - off);
	s->send(q.bytes.substr(off, n));
	off += n;
	if (off >= q.bytes.size()) { sent_all(i); if (!over) push_more(); return; }
	after(q.gap, [this, i, off]() { trickle_step(i, off); });
}
void Client::on_data(const char *p, size_t n) {
	rx += n; t_last_rx = now();
	tr("client %d rx %llu", id, (unsigned long long)n);
	if (keep_raw) raw_rx.append(p, n);
	if (upgraded) { if (on_raw) on_raw(this, p, n); return; }
	if (!rp.feed(p, n)) { if (!over) violation(malformed_prop, "malformed", "%s: %s", desc().c_str(), rp.error.c_str()); return; }
	if (over) return;
	if (upgraded && rp.buf.size()) { std::string b; b.swap(rp.buf); if (on_raw) on_raw(this, b.data(), b.size()); }
	if (over) return;
	if (abort_rx >= 0 && (int64_t)rx >= abort_rx) { aborted = true; if (abort_rst) s->abort(); else s->close(); finish(ABORTED); return; }
	if (pause_every > 0) {
		since_pause += n;
		if (since_pause >= pause_every && pause_budget > 0) { pause_budget -= pause_for; since_pause = 0; s->pause(); after(pause_for, [this]() { if (!over) s->resume(); }); }
	}
}
void Client::on_eof() {
	bool clean = rp.eof();
	if (over) return;
	s->close();
	finish(upgraded ? EOF_CLEAN : clean ? EOF_CLEAN : EOF_MID);
}
void Client::on_reset() { finish(RESET); }
void Client::finish(End e) {
	if (over) return;
	over = true; end = e; t_end = now();
	tr("client %d over: %d got %llu of %llu", id, (int)e, (unsigned long long)got, (unsigned long long)reqs.size());
	if (on_end) { auto f = on_end; f(this); }
}
}
