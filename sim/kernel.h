// Simulated kernel: descriptors, sockets, epoll, eventfd, pipes, in-memory file system.
#pragma once
#include "sim.h"
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/epoll.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <cerrno>

namespace sim {

constexpr int FD_BASE = 64, FD_MAX = 4096;

struct Epoll;
struct File {
	enum Kind { LISTEN, STREAM, EPOLL, EVENTFD, PIPE, REG, DIRF, CHILDEND } kind;
	int refs = 0;
	int flags = 0;
	std::vector<Epoll *> eps;
	File(Kind k) : kind(k) {}
	virtual ~File() {}
	virtual uint32_t poll() { return EPOLLIN | EPOLLOUT; }
	virtual void released() {}   // last descriptor closed
};

struct ByteQ {
	std::string b; size_t off = 0;
	size_t size() const { return b.size() - off; }
	void push(const char *p, size_t n) { b.append(p, n); }
	size_t pop(char *p, size_t n) { if (n > size()) n = size(); memcpy(p, b.data() + off, n); drop(n); return n; }
	void drop(size_t n) { off += n; if (off == b.size()) { b.clear(); off = 0; } else if (off > 65536) { b.erase(0, off); off = 0; } }
	const char *data() const { return b.data() + off; }
	void clear() { b.clear(); off = 0; }
};

struct SockAddr { sockaddr_storage ss; socklen_t len = 0; std::string str; };
SockAddr mkaddr(const std::string &s);   // "1.2.3.4:80" or "unix:/path"
SockAddr from_sockaddr(const sockaddr *sa, socklen_t len);

struct Peer;
struct Stream;
// one direction of a connection
struct Half {
	ByteQ snd, rcv; size_t inflight = 0;
	size_t sndcap = 65536, rcvcap = 65536;
	bool fin_queued = false, fin_sent = false, fin_arrived = false;
	vtime last_arrival = 0;
	uint64_t total_in = 0, total_arrived = 0;
};
struct LinkOpts {
	vtime lat = 100 * US; vtime jitter = 0; int64_t bw = 0; // bytes/s, 0 = infinite
	size_t sndcap = 65536, rcvcap = 65536;
	double split = 0;   // probability that a segment is split at a random point
};
struct Conn;
// actor side endpoint
struct ActorSock {
	Conn *c; int side; Peer *peer = nullptr;
	bool closed = false, paused = false, reset = false, eof_seen = false, delivering = false;
	std::function<void(const std::string &)> tx; std::function<void()> before_close;   // a layer on top (TLS): payload to send, orderly close
	void send(const std::string &s) { if (tx) tx(s); else send_raw(s); }
	void send_raw(const std::string &s);
	void shut_wr();
	void close();      // orderly close (RST if unread data), no more callbacks
	void abort();      // RST
	void pause() { paused = true; }
	void resume();
	size_t unsent();   // bytes not yet delivered to the other side's kernel
};
struct Conn {
	Half h[2];         // h[0]: side0 -> side1, h[1]: side1 -> side0
	LinkOpts opt;
	bool rst_arrived[2] = {false, false};   // RST received by side i
	bool gone[2] = {false, false};          // side i fully closed
	Stream *sock[2] = {nullptr, nullptr};   // code-under-test endpoints
	ActorSock *actor[2] = {nullptr, nullptr};
	bool established = false;
	bool dead_link[2] = {false, false};     // packets from side i are dropped (blackhole)
	uint64_t id;
	SockAddr addr[2];
};
struct Peer {
	ActorSock *s = nullptr;
	virtual ~Peer() {}
	virtual void on_connect() {}
	virtual void on_refused(int) {}
	virtual void on_data(const char *p, size_t n) = 0;
	virtual void on_eof() {}
	virtual void on_reset() {}
	virtual void on_sent() {}   // everything handed to send() was taken by the other kernel
};

struct Stream : File {
	Conn *c = nullptr; int side = 0;
	int family = AF_INET;
	bool connecting = false, connected = false, shut_rd = false, shut_wr = false;
	int so_error = 0;
	SockAddr local, remote;
	bool bound = false;
	std::deque<std::pair<size_t, std::vector<int>>> fdq; // SCM_RIGHTS (position ignored)
	uint64_t rx = 0, tx = 0;
	std::shared_ptr<bool> alive = std::make_shared<bool>(true);
	Stream() : File(STREAM) {}
	uint32_t poll() override;
	void released() override;
};
struct Listen : File {
	SockAddr addr; std::deque<Conn *> q; size_t backlog = 128; bool open = true;
	Listen() : File(LISTEN) {}
	uint32_t poll() override { return q.empty() ? 0 : EPOLLIN; }
	void released() override;
};
struct EventFd : File { uint64_t v = 0; EventFd() : File(EVENTFD) {} uint32_t poll() override { return (v ? EPOLLIN : 0) | EPOLLOUT; } };
struct PipeEnd;
struct PipeBuf { ByteQ q; size_t cap = 65536; int r = 0, w = 0; };
struct PipeEnd : File {
	std::shared_ptr<PipeBuf> b; bool rd;
	PipeEnd(bool r) : File(PIPE), rd(r) {}
	uint32_t poll() override {
		if (rd) return (b->q.size() ? EPOLLIN : 0) | (b->w == 0 ? EPOLLHUP : 0);
		return (b->q.size() < b->cap ? EPOLLOUT : 0) | (b->r == 0 ? EPOLLERR : 0);
	}
	void released() override { if (rd) b->r--; else b->w--; kernel_changed(); }
};
struct Epoll : File {
	struct E { File *f; int fd; uint32_t events; uint64_t data; bool armed; };
	std::map<int, E> m;
	Epoll() : File(EPOLL) {}
	uint32_t poll() override { return 0; }
	void released() override;
};

// ---- file system -----------------------------------------------------------------------------
struct Inode {
	bool dir = false; bool lnk = false;
	std::string data; std::string durable; bool ever_durable = false;
	std::map<std::string, Inode *> ch;
	mode_t mode = 0644; uint64_t ino = 0; int nlink = 1; int opens = 0;
	vtime mtime = 0, moved = 0; // moved: last rename (ctime)
	uint64_t version = 0;
};
struct RegFile : File {
	Inode *n; off_t pos = 0; std::string path;
	RegFile() : File(REG) {}
	void released() override;
};
Inode *vfs_lookup(const std::string &path);
Inode *vfs_mkdirs(const std::string &path);
Inode *vfs_put(const std::string &path, const std::string &data, mode_t mode = 0644); // create or replace content in place
Inode *vfs_replace(const std::string &path, const std::string &data);                 // new inode (rename over)
void vfs_unlink(const std::string &path);
void vfs_rename(const std::string &from, const std::string &to);
std::string vfs_get(const std::string &path);
std::vector<std::string> vfs_list(const std::string &path);
void vfs_clear();
std::string vfs_save(const std::string &path);   // subtree as text, for crash/restart
void vfs_load(const std::string &s);
extern std::function<void(const std::string &op, const std::string &path)> vfs_observer;
extern std::function<void(RegFile *, const char *, size_t)> vfs_write_observer;
extern vtime slow_total;   // sum of injected slow-disk delays
extern int vfs_ops;   // counts mutating operations (crash points)

// ---- descriptors -----------------------------------------------------------------------------
File *fd_get(int fd);
int fd_alloc(File *f, int flags = 0);     // -1/EMFILE
int fd_close(int fd);
int fd_dup(int fd, int min);
bool is_simfd(int fd);
int fd_open_count();
int fd_leakable();                        // descriptors other than event loop infrastructure
int fd_peak();
extern int fd_limit;
std::string fd_describe();                // list of open descriptors
void file_unref(File *f);                 // drop a reference held by an actor (another process)

// ---- network API for actors --------------------------------------------------------------------
// connect to a listener of the code under test
ActorSock *net_connect(const std::string &addr, Peer *p, const std::string &from, const LinkOpts &o);
enum ConnPolicy { CP_OK, CP_OK_NOW, CP_REFUSE, CP_REFUSE_NOW, CP_BLACKHOLE, CP_EAGAIN, CP_UNREACH };
struct BackendListener {
	std::function<ConnPolicy()> policy;
	std::function<Peer *()> accept;
	std::function<LinkOpts()> link;
	vtime connect_delay = 100 * US;
	int conns = 0;
};
void net_backend(const std::string &addr, BackendListener *b);  // nullptr removes
extern std::map<std::string, BackendListener *> backends;
Listen *find_listener(const std::string &addr);
extern uint64_t net_bytes;
extern int accept_count;
extern int live_sut_conns;   // accepted connections not yet closed by the code under test
// socketpair() by the code under test: sv[0] is connected to the peer returned by the hook, sv[1] is handed to a child process
struct ChildEnd : File { std::function<void()> on_released; ChildEnd() : File(CHILDEND) {} void released() override { if (on_released) on_released(); } };
extern std::function<Peer *(LinkOpts &, ChildEnd *)> on_socketpair;
extern std::shared_ptr<PipeBuf> last_pipe;
extern std::function<void(Stream *, std::vector<int>)> on_scm_send;
// simulated processes
extern std::function<int()> on_fork;
extern std::function<int(int pid, int sig)> on_kill;
extern std::function<int(int pid, int *st, int opt)> on_waitpid;
// make a connected pair where one end is an fd of the code under test, the other an actor
int net_pair_fd(Peer *p, const LinkOpts &o, int family);
void net_pair_fd0(Peer *p, const LinkOpts &o);   // as descriptor 0, not counted as a connection
int net_listen_fd(const std::string &addr);      // a listening socket that also stays open elsewhere

// called by the Stream code
int k_connect(Stream *s, const SockAddr &a);
ssize_t k_recv(Stream *s, char *buf, size_t n, bool peek);
ssize_t k_send(Stream *s, const char *buf, size_t n);
void pump(Conn *c, int dir);
extern std::function<void(Stream *)> on_sut_accept;
extern std::function<void(Stream *, size_t)> on_sut_recv;   // bytes taken from the socket
extern std::function<void(Stream *, size_t)> on_sut_send;   // bytes accepted by the socket

} // namespace sim
