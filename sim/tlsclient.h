#pragma once
// TLS client: libgnutls over the simulated connection, in front of a Client
#include "client.h"
#include "harness.h"
#include <gnutls/gnutls.h>
#include <algorithm>
namespace sim { namespace {
gnutls_certificate_credentials_t cred; std::vector<gnutls_datum_t> tickets[3];
int handshakes, resumed, bad;
struct Tls : Peer {
	Client *k; gnutls_session_t g = nullptr; std::string in; size_t inp = 0; bool hs = false, dead = false, notify = false; uint64_t tx = 0; int64_t corrupt = -1, corrupt_rel = -1; bool corrupted = false; bool nobye = false, prio13 = false; int v = 0; int chunk = 0; int upd = 0; bool resume = false; std::string out; int64_t hs_cut = -1; bool cut_rst = false;
	static ssize_t push(gnutls_transport_ptr_t p, const void *b, size_t n) { ((Tls *)p)->raw((const char *)b, n); return n; }
	static ssize_t pull(gnutls_transport_ptr_t p, void *b, size_t n) { Tls *t = (Tls *)p; size_t m = std::min(n, t->in.size() - t->inp); if (!m) { gnutls_transport_set_errno(t->g, EAGAIN); return -1; } memcpy(b, t->in.data() + t->inp, m); t->inp += m; if (t->inp == t->in.size()) { t->in.clear(); t->inp = 0; } return m; }
	static int pull_timeout(gnutls_transport_ptr_t p, unsigned) { Tls *t = (Tls *)p; return t->in.size() > t->inp; }
	void raw(const char *b, size_t n) {
		std::string x(b, n); if (corrupt >= 0 && (uint64_t)corrupt < tx + n) {
			// only record contents are corrupted: the version in a record header may be ignored, and a change_cipher_spec record means nothing in TLS 1.3
			size_t o = (size_t)corrupt < tx ? 0 : corrupt - tx; bool ok = false;
			for (size_t a = 0; a + 5 < n;) { size_t len = 5 + ((unsigned char)x[a + 3] << 8) + (unsigned char)x[a + 4]; if (o < a + 5) o = a + 5; if (x[a] == 20 && o < a + len) o = a + len; if (o < a + len) { ok = o < n; break; } a += len; }
			if (ok) { x[o] ^= 1 << decide("t.bit", 8); corrupt = -1; corrupted = true; ++bad; tr("client %d corrupts byte %llu", k->id, (unsigned long long)(tx + o)); }
		}
		if (hs_cut >= 0 && tx + n > (uint64_t)hs_cut) { x.resize(hs_cut > (int64_t)tx ? hs_cut - tx : 0); if (!x.empty()) s->send_raw(x); tx += n; if (!dead) { dead = true; after(0, [this]() { tr("client %d cuts the handshake", k->id); cut(); }); } return; }
		if (dead) return; tx += n; s->send_raw(x);
	}
	void cut() { if (k->over) return; k->aborted = true; ActorSock *x = s; x->before_close = nullptr; if (cut_rst) x->abort(); else x->close(); k->finish(Client::ABORTED); }
	void open(const std::string &a) {
		gnutls_init(&g, GNUTLS_CLIENT | GNUTLS_NONBLOCK); static const char *pr[] = {"NORMAL", "NORMAL:-VERS-ALL:+VERS-TLS1.2", "NORMAL:-VERS-ALL:+VERS-TLS1.3"}; v = decide("t.vers", 3); prio13 = v == 2; gnutls_priority_set_direct(g, pr[v], nullptr); gnutls_credentials_set(g, GNUTLS_CRD_CERTIFICATE, cred); int sni = decide("t.sni", 3); if (sni) { std::string n = sni == 1 ? "h.example" : "other.example"; gnutls_server_name_set(g, GNUTLS_NAME_DNS, n.data(), n.size()); }
		if (decide("t.alpn", 2)) { static const gnutls_datum_t pd = {(unsigned char *)"http/1.1", 8}; gnutls_alpn_set_protocols(g, &pd, 1, 0); }
		gnutls_transport_set_ptr(g, this); gnutls_transport_set_push_function(g, push); gnutls_transport_set_pull_function(g, pull); gnutls_transport_set_pull_timeout_function(g, pull_timeout); gnutls_handshake_set_timeout(g, 0);
		if (!tickets[v].empty() && chance("t.resume", 0.5)) { auto &d = tickets[v][decide("t.tick", tickets[v].size())]; gnutls_session_set_data(g, d.data, d.size); resume = true; }
		net_connect(a, this, k->from, k->link); k->s = s;
	}
	void on_connect() override { step(); }
	void on_refused(int e) override { k->on_refused(e); }
	void step() {
		size_t left; int r; do { left = in.size() - inp; r = gnutls_handshake(g); if (dead || k->over) return; } while (r == GNUTLS_E_AGAIN && in.size() > inp && in.size() - inp < left);
		if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) return;
		if (r < 0 && !gnutls_error_is_fatal(r)) { step(); return; }
		if (r < 0) { dead = true; if (!corrupted) violation("P21", "handshake", "%s: TLS handshake failed: %s (%s)", k->desc().c_str(), gnutls_strerror(r), r == GNUTLS_E_FATAL_ALERT_RECEIVED ? gnutls_alert_get_name(gnutls_alert_get(g)) : ""); cut(); return; }
		hs = true; ++handshakes; if (gnutls_session_is_resumed(g)) ++resumed; tr("client %d handshake done", k->id); if (corrupt_rel >= 0) corrupt = tx + corrupt_rel;
		s->tx = [this](const std::string &d) { put(d); };
		s->before_close = [this]() { if (!nobye && hs && !dead) gnutls_bye(g, GNUTLS_SHUT_WR); };
		k->on_connect();
	}
	void put(const std::string &d) {
		size_t o = 0; while (o < d.size() && !dead) {
			size_t n = chunk ? std::min<size_t>(chunk, d.size() - o) : d.size() - o;
			if (upd > 0 && chance("t.upd", 0.3)) { --upd; if (gnutls_protocol_get_version(g) == GNUTLS_TLS1_3) { gnutls_session_key_update(g, decide("t.updp", 2) ? GNUTLS_KU_PEER : 0); probe("key_update"); } }
			ssize_t r = gnutls_record_send(g, d.data() + o, n); if (r <= 0) harness_error(strf("gnutls_record_send: %zd", r).c_str()); o += r;
		}
	}
	void on_data(const char *d, size_t n) override {
		in.append(d, n); if (dead || k->over) return;
		if (!hs) { step(); if (!hs) return; }
		drain();
	}
	void drain() {
		char buf[20000]; size_t last = (size_t)-1;
		while (!dead && !k->over && !s->closed) {
			size_t left = in.size() - inp + gnutls_record_check_pending(g);
			ssize_t r = gnutls_record_recv(g, buf, sizeof buf);
			if (r > 0) { k->on_data(buf, r); continue; }
			if (r == 0) { notify = true; k->on_eof(); return; }
			if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) { if (!left || left == last) break; last = left; continue; }   // a post-handshake message was handled, or a record is incomplete
			if (!gnutls_error_is_fatal(r)) continue;
			dead = true; if (!corrupted) violation("P21", "record", "%s: %s (%s)", k->desc().c_str(), gnutls_strerror(r), r == GNUTLS_E_FATAL_ALERT_RECEIVED ? gnutls_alert_get_name(gnutls_alert_get(g)) : ""); cut(); return;
		}
	}
	void on_eof() override { if (k->over) return; if (!hs) { if (!corrupted && !dead) violation("P21", "handshake", "%s: the server closed the connection during the handshake", k->desc().c_str()); } probe("eof_without_notify"); k->on_eof(); }
	void on_reset() override { if (k->over) return; if (!hs && !corrupted && !dead) violation("P21", "handshake", "%s: the server reset the connection during the handshake", k->desc().c_str()); k->on_reset(); }
	void keep() { if (!hs || dead || tickets[v].size() > 20) return; gnutls_datum_t d; if (gnutls_session_get_data2(g, &d) == 0) tickets[v].push_back(d); }
};
} }
