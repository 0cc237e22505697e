#include "kernel.h"
#include <algorithm>

namespace sim {

// ---- descriptors -----------------------------------------------------------------------------
static std::vector<File *> fdt;
static int open_cnt = 0, peak_cnt = 0;
int fd_limit = 1000;
static File *fd0 = nullptr;   // descriptor 0 of a worker started by the angel: the control connection
bool is_simfd(int fd) { return (fd >= FD_BASE && fd < FD_MAX) || (fd == 0 && fd0); }
File *fd_get(int fd) {
	if (fd == 0) return fd0;
	int i = fd - FD_BASE;
	if (i < 0 || i >= (int)fdt.size()) return nullptr;
	return fdt[i];
}
static int fd_put(File *f, int min) {
	if (open_cnt >= fd_limit) { errno = EMFILE; return -1; }
	int i = min > FD_BASE ? min - FD_BASE : 0;
	for (;; ++i) {
		if (i >= (int)fdt.size()) fdt.resize(i + 1, nullptr);
		if (!fdt[i]) break;
	}
	if (i + FD_BASE >= FD_MAX) { errno = EMFILE; return -1; }
	fdt[i] = f; f->refs++; open_cnt++; peak_cnt = std::max(peak_cnt, open_cnt);
	return i + FD_BASE;
}
int fd_alloc(File *f, int flags) { f->flags |= flags; return fd_put(f, 0); }
int fd_dup(int fd, int min) { File *f = fd_get(fd); if (!f) { errno = EBADF; return -1; } return fd_put(f, min); }
int fd_open_count() { return open_cnt; }
int fd_leakable() { int n = 0; for (File *f : fdt) if (f && (f->kind == File::STREAM || f->kind == File::REG || f->kind == File::DIRF || f->kind == File::PIPE || f->kind == File::LISTEN || f->kind == File::CHILDEND)) ++n; return n; }
int fd_peak() { return peak_cnt; }
int fd_close(int fd) {
	File *f = fd_get(fd);
	if (!f) { errno = EBADF; return -1; }
	if (fd == 0) { fd0 = nullptr; kernel_changed(); file_unref(f); return 0; }
	fdt[fd - FD_BASE] = nullptr; open_cnt--;
	kernel_changed();
	file_unref(f);
	return 0;
}
void file_unref(File *f) {
	kernel_changed();
	if (--f->refs == 0) {
		for (Epoll *e : f->eps)
			for (auto it = e->m.begin(); it != e->m.end();) { if (it->second.f == f) it = e->m.erase(it); else ++it; }
		f->eps.clear();
		f->released();
		delete f;
	}
}
std::function<Peer *(LinkOpts &, ChildEnd *)> on_socketpair;
std::shared_ptr<PipeBuf> last_pipe;
void fd_swap(int fd, File *n) {
	File *f = fdt[fd - FD_BASE];
	n->refs = f->refs; n->eps.clear();
	for (auto &x : fdt) if (x == f) x = n;
	for (Epoll *e : f->eps) for (auto &k : e->m) if (k.second.f == f) { k.second.f = n; n->eps.push_back(e); }
	delete f;
	kernel_changed();
}
static const char *kn[] = {"listen", "stream", "epoll", "eventfd", "pipe", "file", "dir", "childend"};
std::string fd_describe() {
	std::string s;
	for (size_t i = 0; i < fdt.size(); ++i) if (fdt[i]) {
		s += " " + std::to_string(i + FD_BASE) + ":" + kn[fdt[i]->kind];
		if (fdt[i]->kind == File::REG) s += "(" + ((RegFile *)fdt[i])->path + ")";
		if (fdt[i]->kind == File::STREAM) s += "(" + ((Stream *)fdt[i])->remote.str + ")";
	}
	return s;
}
void Epoll::released() {
	for (auto &k : m) { auto &v = k.second.f->eps; v.erase(std::remove(v.begin(), v.end(), this), v.end()); }
	m.clear();
}

// ---- addresses ---------------------------------------------------------------------------------
SockAddr mkaddr(const std::string &s) {
	SockAddr a; memset(&a.ss, 0, sizeof a.ss); a.str = s;
	if (s.compare(0, 5, "unix:") == 0) {
		sockaddr_un *u = (sockaddr_un *)&a.ss; u->sun_family = AF_UNIX;
		std::string p = s.substr(5);
		memcpy(u->sun_path, p.c_str(), p.size() + 1);
		a.len = offsetof(sockaddr_un, sun_path) + p.size() + 1;
	} else {
		sockaddr_in *i = (sockaddr_in *)&a.ss; i->sin_family = AF_INET;
		auto c = s.rfind(':');
		inet_pton(AF_INET, s.substr(0, c).c_str(), &i->sin_addr);
		i->sin_port = htons(atoi(s.c_str() + c + 1));
		a.len = sizeof(sockaddr_in);
	}
	return a;
}
SockAddr from_sockaddr(const sockaddr *sa, socklen_t len) {
	SockAddr a; memset(&a.ss, 0, sizeof a.ss);
	if (len > sizeof a.ss) len = sizeof a.ss;
	memcpy(&a.ss, sa, len); a.len = len;
	if (sa->sa_family == AF_UNIX) a.str = std::string("unix:") + ((sockaddr_un *)&a.ss)->sun_path;
	else if (sa->sa_family == AF_INET) {
		sockaddr_in *i = (sockaddr_in *)&a.ss; char b[64];
		inet_ntop(AF_INET, &i->sin_addr, b, sizeof b);
		a.str = std::string(b) + ":" + std::to_string(ntohs(i->sin_port));
	} else a.str = "?";
	return a;
}

// ---- connections -------------------------------------------------------------------------------
uint64_t net_bytes = 0;
int accept_count = 0, live_sut_conns = 0;
static uint64_t conn_seq = 0;
std::map<std::string, BackendListener *> backends;
static std::map<std::string, Listen *> listeners;
std::function<void(Stream *)> on_sut_accept;
std::function<void(Stream *, size_t)> on_sut_send, on_sut_recv;

static vtime link_delay(Conn *c, int dir, size_t n) {
	vtime d = c->opt.lat;
	if (c->opt.jitter) d += (vtime)decide("net.jit", 1000) * (c->opt.jitter / 1000);
	vtime t = std::max(now() + d, c->h[dir].last_arrival);
	if (c->opt.bw > 0) t = std::max(now() + d, c->h[dir].last_arrival) + (vtime)((double)n / c->opt.bw * SEC);
	c->h[dir].last_arrival = t;
	return t;
}
static void actor_deliver(Conn *c, int side);
static void rst_arrive(Conn *c, int side) {
	if (c->rst_arrived[side] || c->gone[side]) { c->rst_arrived[side] = true; return; }
	c->rst_arrived[side] = true;
	tr("net c%llu RST arrives at side %d", (unsigned long long)c->id, side);
	c->h[side].snd.clear();          // our unsent data is dropped
	if (c->sock[side]) c->sock[side]->so_error = c->h[1 - side].fin_arrived ? EPIPE : ECONNRESET;
	kernel_changed();
	if (c->actor[side] && !c->actor[side]->closed) {
		actor_deliver(c, side);
		ActorSock *a = c->actor[side];
		if (!a->closed && !a->paused && !a->reset) { a->reset = true; if (a->peer) a->peer->on_reset(); }
	}
}
static void send_rst(Conn *c, int from) {
	c->h[from].snd.clear();
	if (c->dead_link[from]) return;
	int to = 1 - from;
	at(std::max(now() + c->opt.lat, c->h[from].last_arrival), [c, to]() { rst_arrive(c, to); });
}
static void arrive(Conn *c, int dir, std::string seg, bool fin) {
	Half &h = c->h[dir]; int to = 1 - dir;
	h.inflight -= seg.size();
	h.total_arrived += seg.size();
	kernel_changed();
	if (c->gone[to]) {
		if (c->rst_arrived[dir]) return;
		// data (or FIN) for a closed socket: data is answered with RST
		if (seg.size() && !c->rst_arrived[to]) { tr("net c%llu data for closed side %d -> RST", (unsigned long long)c->id, to); send_rst(c, to); }
		return;
	}
	if (c->rst_arrived[to]) return;
	if (seg.size()) { h.rcv.push(seg.data(), seg.size()); net_bytes += seg.size(); }
	if (fin) h.fin_arrived = true;
	if (c->actor[to]) actor_deliver(c, to);
	pump(c, dir);
}
void pump(Conn *c, int dir) {
	Half &h = c->h[dir];
	if (!c->established || c->rst_arrived[dir] || c->dead_link[dir]) return;
	while (h.snd.size()) {
		size_t used = h.inflight + h.rcv.size();
		if (used >= h.rcvcap || (used && h.rcvcap - used < std::min<size_t>(h.rcvcap / 2, 1460) && h.rcvcap - used < h.snd.size())) return; // silly window avoidance
		size_t n = std::min(h.snd.size(), h.rcvcap - used);
		if (c->opt.split > 0 && n > 1) {
			uint32_t k = decide_p("net.split", c->opt.split, n > 4096 && decide("net.splitbig", 4) ? 4096 : (uint32_t)n);
			if (k) n = k;
		} else if (n > 1) {
			uint32_t k = decide_p("net.split", 0, n); if (k) n = k;
		}
		std::string seg(h.snd.data(), n);
		h.snd.drop(n); h.inflight += n;
		at(link_delay(c, dir, n), [c, dir, seg]() { arrive(c, dir, seg, false); });
	}
	if (!h.snd.size() && h.fin_queued && !h.fin_sent) {
		h.fin_sent = true;
		at(link_delay(c, dir, 0), [c, dir]() { arrive(c, dir, std::string(), true); });
	}
	if (!h.snd.size() && c->actor[dir] && c->actor[dir]->peer && !c->actor[dir]->closed && h.total_in) {
		ActorSock *a = c->actor[dir];
		after(0, [a]() { if (!a->closed && !a->reset && a->peer && a->unsent() == 0) a->peer->on_sent(); });
	}
}
static void actor_deliver(Conn *c, int side) {
	ActorSock *a = c->actor[side]; Half &h = c->h[1 - side];
	if (a->closed || a->delivering) return;
	a->delivering = true;
	if (!a->paused && h.rcv.size()) {
		std::string d(h.rcv.data(), h.rcv.size());
		h.rcv.clear();
		if (a->peer) a->peer->on_data(d.data(), d.size());
	}
	if (!a->closed && !a->paused && !h.rcv.size() && h.fin_arrived && !a->eof_seen) { a->eof_seen = true; if (a->peer) a->peer->on_eof(); }
	a->delivering = false;
	pump(c, 1 - side);
}
void ActorSock::send_raw(const std::string &d) {
	Guard g;
	if (closed || reset) return;
	Half &h = c->h[side];
	h.snd.push(d.data(), d.size()); h.total_in += d.size();
	pump(c, side);
}
size_t ActorSock::unsent() { return c->h[side].snd.size(); }
void ActorSock::shut_wr() { Guard g; if (closed) return; c->h[side].fin_queued = true; pump(c, side); }
void ActorSock::resume() {
	Guard g;
	if (!paused) return;
	paused = false;
	Conn *cc = c; int sd = side; ActorSock *me = this;
	after(0, [cc, sd, me]() {
		if (me->closed) return;
		actor_deliver(cc, sd);
		if (!me->closed && !me->paused && cc->rst_arrived[sd] && !me->reset) { me->reset = true; if (me->peer) me->peer->on_reset(); }
	});
}
void ActorSock::close() {
	Guard g;
	if (closed) return;
	if (before_close) { auto f = before_close; before_close = nullptr; f(); }
	closed = true; peer = nullptr;
	Half &in = c->h[1 - side];
	c->gone[side] = true;
	if (in.rcv.size()) { in.rcv.clear(); send_rst(c, side); }
	else { c->h[side].fin_queued = true; pump(c, side); }
	kernel_changed();
}
void ActorSock::abort() {
	Guard g;
	if (closed) return;
	closed = true; peer = nullptr; c->gone[side] = true;
	send_rst(c, side);
}

static Conn *mkconn(const LinkOpts &o) {
	Conn *c = new Conn; c->opt = o; c->id = ++conn_seq;
	c->h[0].sndcap = c->h[1].sndcap = o.sndcap; c->h[0].rcvcap = c->h[1].rcvcap = o.rcvcap;
	return c;
}
Listen *find_listener(const std::string &addr) { auto it = listeners.find(addr); return it == listeners.end() ? nullptr : it->second; }
// side 0 = actor, side 1 = code under test
ActorSock *net_connect(const std::string &addr, Peer *p, const std::string &from, const LinkOpts &o) {
	Guard g;
	Conn *c = mkconn(o);
	ActorSock *a = new ActorSock; a->c = c; a->side = 0; a->peer = p; p->s = a; c->actor[0] = a;
	c->addr[0] = mkaddr(from); c->addr[1] = mkaddr(addr);
	after(o.lat, [=]() {
		if (a->closed) return;
		Listen *l = find_listener(addr);
		if (!l || !l->open) { tr("net connect to %s refused", addr.c_str()); after(o.lat, [=]() { if (!a->closed && a->peer) { a->reset = true; a->peer->on_refused(ECONNREFUSED); } }); return; }
		if (l->q.size() >= l->backlog) { after(SEC, [=]() { if (!a->closed && a->peer) { a->reset = true; a->peer->on_refused(ETIMEDOUT); } }); return; }
		c->established = true;
		l->q.push_back(c);
		tr("net c%llu queued on listener %s", (unsigned long long)c->id, addr.c_str());
		kernel_changed();
		after(o.lat, [=]() { if (!a->closed && a->peer) { a->peer->on_connect(); if (!a->closed) pump(c, 0); } });
	});
	return a;
}
void net_backend(const std::string &addr, BackendListener *b) { if (b) backends[addr] = b; else backends.erase(addr); }

int k_connect(Stream *s, const SockAddr &a) {
	s->remote = a;
	auto it = backends.find(a.str);
	BackendListener *b = it == backends.end() ? nullptr : it->second;
	ConnPolicy cp = b ? (b->policy ? b->policy() : CP_OK) : (a.str.compare(0, 5, "unix:") == 0 ? CP_REFUSE_NOW : CP_REFUSE);
	bool unix_sock = s->family == AF_UNIX;
	vtime d = b ? b->connect_delay : 100 * US;
	LinkOpts lo = b && b->link ? b->link() : LinkOpts();
	tr("connect to %s policy %d", a.str.c_str(), (int)cp);
	auto establish = [s, b, lo, a]() {
		Conn *c = mkconn(lo);
		s->c = c; s->side = 0; c->sock[0] = s; c->addr[1] = a; c->addr[0] = s->bound ? s->local : mkaddr("127.0.0.1:" + std::to_string(20000 + (c->id % 40000)));
		s->local = c->addr[0];
		Peer *p = b->accept();
		ActorSock *as = new ActorSock; as->c = c; as->side = 1; as->peer = p; p->s = as; c->actor[1] = as;
		c->established = true; s->connecting = false; s->connected = true;
		b->conns++;
		kernel_changed();
		p->on_connect();
		if (!as->closed) pump(c, 1);
	};
	if (unix_sock) {
		if (cp == CP_EAGAIN) { errno = EAGAIN; return -1; }
		if (cp == CP_REFUSE || cp == CP_REFUSE_NOW || cp == CP_UNREACH) { errno = b ? ECONNREFUSED : ENOENT; return -1; }
		if (cp != CP_BLACKHOLE) { establish(); return 0; }
	}
	switch (cp) {
	case CP_OK_NOW: establish(); return 0;
	case CP_REFUSE_NOW: errno = ECONNREFUSED; return -1;
	case CP_EAGAIN: errno = EAGAIN; return -1;
	case CP_UNREACH: errno = ENETUNREACH; return -1;
	default: break;
	}
	s->connecting = true;
	auto alive = s->alive;
	auto done = [alive](std::function<void()> f) { if (*alive) f(); };
	if (cp == CP_OK) after(d, [=]() { done(establish); });
	else if (cp == CP_REFUSE) after(d, [=]() { done([s]() { s->connecting = false; s->so_error = ECONNREFUSED; kernel_changed(); }); });
	else after(127 * SEC, [=]() { done([s]() { s->connecting = false; s->so_error = ETIMEDOUT; kernel_changed(); }); });
	errno = EINPROGRESS;
	return -1;
}

uint32_t Stream::poll() {
	if (!c) {
		if (connecting) return 0;
		if (so_error) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
		return EPOLLOUT | EPOLLHUP;
	}
	Half &in = c->h[1 - side], &out = c->h[side];
	uint32_t r = 0;
	bool rst = c->rst_arrived[side];
	if (in.rcv.size() || in.fin_arrived || rst || shut_rd) r |= EPOLLIN | EPOLLRDNORM;
	if (in.fin_arrived || shut_rd || rst) r |= EPOLLRDHUP;
	size_t used = out.snd.size() + out.inflight;
	if (rst || shut_wr || (used < out.sndcap && out.sndcap - used >= out.sndcap / 4)) r |= EPOLLOUT | EPOLLWRNORM;
	if (rst || (shut_wr && in.fin_arrived)) r |= EPOLLHUP;
	if (so_error) r |= EPOLLERR;
	return r;
}
void Stream::released() {
	*alive = false;
	if (!c) return;
	if (side == 1) live_sut_conns--;
	c->sock[side] = nullptr; c->gone[side] = true;
	tr("close c%llu by code under test, unread %llu", (unsigned long long)c->id, (unsigned long long)c->h[1 - side].rcv.size());
	if (c->rst_arrived[side]) return;
	if (c->h[1 - side].rcv.size()) { c->h[1 - side].rcv.clear(); probe("close_with_unread"); send_rst(c, side); }
	else { c->h[side].fin_queued = true; pump(c, side); }
	pump(c, 1 - side);
}
void Listen::released() {
	open = false;
	listeners.erase(addr.str);
	for (Conn *c : q) { c->gone[1] = true; send_rst(c, 1); }
	q.clear();
}
void register_listener(Listen *l) { listeners[l->addr.str] = l; }

ssize_t k_recv(Stream *s, char *buf, size_t n, bool peek) {
	if (!s->c) {
		if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
		errno = s->connecting ? EAGAIN : ENOTCONN; return -1;
	}
	Half &in = s->c->h[1 - s->side];
	if (FAULT("eintr_read")) { errno = EINTR; return -1; }
	if (in.rcv.size()) {
		if (FAULT("eagain_read")) { errno = EAGAIN; return -1; }
		size_t m = std::min(n, in.rcv.size());
		if (m > 1 && FAULT("short_read")) m = 1 + decide("short_read.n", m > 1000 && decide("short_read.big", 2) ? (uint32_t)m - 1 : (uint32_t)std::min<size_t>(m - 1, 40));
		if (peek) { memcpy(buf, in.rcv.data(), m); return m; }
		in.rcv.pop(buf, m);
		s->rx += m; if (on_sut_recv) on_sut_recv(s, m); progress(); kernel_changed();
		pump(s->c, 1 - s->side);
		return m;
	}
	if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
	if (in.fin_arrived || s->c->rst_arrived[s->side] || s->shut_rd) return 0;
	errno = EAGAIN; return -1;
}
ssize_t k_send(Stream *s, const char *buf, size_t n) {
	if (!s->c) {
		if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
		errno = s->connecting ? EAGAIN : ENOTCONN; return -1;
	}
	if (FAULT("eintr_write")) { errno = EINTR; return -1; }
	if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
	if (s->c->rst_arrived[s->side] || s->shut_wr) { errno = EPIPE; return -1; }
	Half &out = s->c->h[s->side];
	size_t used = out.snd.size() + out.inflight;
	if (used >= out.sndcap) { errno = EAGAIN; return -1; }
	if (FAULT("eagain_write")) { errno = EAGAIN; return -1; }
	size_t m = std::min(n, out.sndcap - used);
	if (m > 1 && FAULT("short_write")) m = 1 + decide("short_write.n", m > 1000 && decide("short_write.big", 2) ? (uint32_t)m - 1 : (uint32_t)std::min<size_t>(m - 1, 40));
	out.snd.push(buf, m); out.total_in += m; s->tx += m;
	if (on_sut_send) on_sut_send(s, m);
	progress(); kernel_changed();
	pump(s->c, s->side);
	return m;
}
void net_pair_fd0(Peer *p, const LinkOpts &o) {
	int fd = net_pair_fd(p, o, AF_UNIX);
	fd0 = fd_get(fd); fd0->flags |= O_RDWR | O_NONBLOCK; fd0->refs++; fd_close(fd); live_sut_conns--;
}
int net_listen_fd(const std::string &addr) {
	Guard g;
	Listen *l = find_listener(addr);
	if (!l) { l = new Listen; l->addr = mkaddr(addr); l->backlog = 1000; l->flags = O_RDWR | O_NONBLOCK; l->refs++; register_listener(l); }
	return fd_alloc(l);
}
int net_pair_fd(Peer *p, const LinkOpts &o, int family) {
	Guard g;
	Conn *c = mkconn(o);
	Stream *s = new Stream; s->family = family; s->c = c; s->side = 1; s->connected = true; c->sock[1] = s;
	live_sut_conns++;
	ActorSock *a = new ActorSock; a->c = c; a->side = 0; a->peer = p; p->s = a; c->actor[0] = a;
	c->established = true;
	return fd_alloc(s);
}

// ---- file system -------------------------------------------------------------------------------
static Inode *root = nullptr;
static uint64_t ino_seq = 100;
int vfs_ops = 0;
std::function<void(const std::string &, const std::string &)> vfs_observer;
std::function<void(RegFile *, const char *, size_t)> vfs_write_observer;
static Inode *rootnode() { if (!root) { root = new Inode; root->dir = true; root->mode = 0755; root->ino = 2; } return root; }
static std::vector<std::string> splitp(const std::string &p) {
	std::vector<std::string> v; size_t i = 0;
	while (i < p.size()) {
		while (i < p.size() && p[i] == '/') ++i;
		size_t j = p.find('/', i); if (j == std::string::npos) j = p.size();
		if (j > i) {
			std::string c = p.substr(i, j - i);
			if (c == "..") { if (!v.empty()) v.pop_back(); } else if (c != ".") v.push_back(c);
		}
		i = j;
	}
	return v;
}
Inode *vfs_lookup(const std::string &path) {
	Inode *n = rootnode();
	for (auto &c : splitp(path)) {
		if (!n->dir) { errno = ENOTDIR; return nullptr; }
		auto it = n->ch.find(c);
		if (it == n->ch.end()) { errno = ENOENT; return nullptr; }
		n = it->second;
	}
	if (path.size() > 1 && path.back() == '/' && !n->dir) { errno = ENOTDIR; return nullptr; }
	return n;
}
Inode *vfs_mkdirs(const std::string &path) {
	Guard g;
	Inode *n = rootnode();
	for (auto &c : splitp(path)) {
		auto it = n->ch.find(c);
		if (it == n->ch.end()) { Inode *d = new Inode; d->dir = true; d->mode = 0755; d->ino = ++ino_seq; d->mtime = now() + realtime_off; n->ch[c] = d; n = d; }
		else n = it->second;
	}
	return n;
}
static void unref(Inode *n) { if (n->nlink <= 0 && n->opens <= 0) { delete n; } }
Inode *vfs_replace(const std::string &path, const std::string &data) {
	Guard g;
	auto v = splitp(path); std::string name = v.back();
	Inode *d = vfs_mkdirs(path.substr(0, path.rfind('/')));
	auto it = d->ch.find(name);
	if (it != d->ch.end()) { it->second->nlink--; unref(it->second); }
	Inode *n = new Inode; n->ino = ++ino_seq; n->data = data; n->mtime = now() + realtime_off; n->mode = 0644;
	d->ch[name] = n; d->mtime = n->mtime;
	return n;
}
Inode *vfs_put(const std::string &path, const std::string &data, mode_t mode) {
	Guard g;
	Inode *n = vfs_lookup(path);
	if (!n) n = vfs_replace(path, data);
	n->data = data; n->mtime = now() + realtime_off; n->mode = mode; n->version++;
	return n;
}
void vfs_unlink(const std::string &path) {
	Guard g;
	auto v = splitp(path); if (v.empty()) return;
	Inode *d = vfs_lookup(path.substr(0, path.rfind('/')));
	if (!d) return;
	auto it = d->ch.find(v.back());
	if (it == d->ch.end()) return;
	it->second->nlink--; unref(it->second); d->ch.erase(it); d->mtime = now() + realtime_off;
}
void vfs_rename(const std::string &a, const std::string &b) {
	Guard g;
	Inode *n = vfs_lookup(a); Inode *db = vfs_lookup(b.substr(0, b.rfind('/'))); if (!n || !db) return;
	n->nlink++; vfs_unlink(a); n->nlink = 1;
	if (db->ch.count(b.substr(b.rfind('/') + 1))) vfs_unlink(b);
	db->ch[b.substr(b.rfind('/') + 1)] = n; n->moved = now() + realtime_off;
}
std::string vfs_get(const std::string &path) { Guard g; Inode *n = vfs_lookup(path); return n ? n->data : std::string(); }
std::vector<std::string> vfs_list(const std::string &path) {
	Guard g; std::vector<std::string> r; Inode *n = vfs_lookup(path);
	if (n) for (auto &k : n->ch) r.push_back(k.first);
	return r;
}
static void save_node(const std::string &path, Inode *n, std::string &o) {
	char b[200]; snprintf(b, sizeof b, "%zu %d %o %llu %lld %zu\n", path.size(), (int)n->dir, (unsigned)n->mode, (unsigned long long)n->ino, (long long)n->mtime, n->data.size());
	o += b + path + n->data;
	for (auto &c : n->ch) save_node(path + "/" + c.first, c.second, o);
}
std::string vfs_save(const std::string &path) { Guard g; std::string o; Inode *n = vfs_lookup(path); if (n) save_node(path, n, o); return o; }
void vfs_load(const std::string &s) {
	Guard g; size_t i = 0;
	while (i < s.size()) {
		size_t pl, dl; int dir, n = 0; unsigned mode; unsigned long long ino; long long mt;
		if (sscanf(s.c_str() + i, "%zu %d %o %llu %lld %zu%n", &pl, &dir, &mode, &ino, &mt, &dl, &n) != 6) harness_error("bad saved file system");
		i += n + 1; std::string p = s.substr(i, pl), d = s.substr(i + pl, dl); i += pl + dl;
		Inode *x = dir ? vfs_mkdirs(p) : vfs_replace(p, d);
		x->mode = mode; x->ino = ino; x->mtime = mt; ino_seq = std::max<uint64_t>(ino_seq, ino);
	}
}
void vfs_clear() { root = nullptr; }
void RegFile::released() { n->opens--; unref(n); }

} // namespace sim
