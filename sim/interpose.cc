// Interposed libc symbols. Calls from the code under test, libev and glib resolve here first.
#include "kernel.h"
#include "shared.h"
#include "raw.h"
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <dirent.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <linux/futex.h>
#include <time.h>
#include <unistd.h>
#include <stdlib.h>
#include <algorithm>

using namespace sim;


namespace sim {
int thread_register(); void thread_begin(int); void thread_end(int); bool thread_done(int);
void register_listener(Listen *l);
void fd_swap(int fd, File *n);
extern std::function<void(Stream *, std::vector<int>)> on_scm_send;
int rlimit_nofile = 1024;
static __thread int my_tid = -1;
// ---- simulated processes (used when the code under test forks)
std::function<int()> on_fork;                       // returns pid (>0) or -1
std::function<int(int pid, int sig)> on_kill;
std::function<int(int pid, int *st, int opt)> on_waitpid;
struct sigaction sigs[65];
bool sig_set[65];
bool raise_signal(int sig);
// decl with the right type
}

#define EXPORT extern "C" __attribute__((visibility("default")))
static inline long ret(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }
static inline bool sim_on() { return active && !in_sim; }

typedef void *(*asan_chk_t)(void *, size_t);
static asan_chk_t asan_chk = nullptr; static bool asan_chk_init = false;
static void chk(const void *p, size_t n, const char *fn) {
	if (!asan_chk_init) { asan_chk_init = true; asan_chk = (asan_chk_t)dlsym(RTLD_DEFAULT, "__asan_region_is_poisoned"); }
	if (!asan_chk || !n) return;
	void *b = asan_chk((void *)p, n);
	if (b) violation("*", "memory-error", "%s: buffer of %zu bytes touches unaddressable memory at offset %ld", fn, n, (long)((char *)b - (char *)p));
}

struct Enter { Enter() { ++in_sim; } ~Enter() { --in_sim; } };
static void tick(const char *why) { sched_point(why); syscall_tick(); }

// a descriptor of the code under test that is not simulated and not 0..2 and not open for real => EBADF handled by the kernel
#define SIMFD(fd) (sim_on() && is_simfd(fd))
#define BADF(f) do { if (!(f)) { tr("EBADF fd %d in %s", fd, __func__); probe("ebadf"); errno = EBADF; return -1; } } while (0)

// ---- generic read/write --------------------------------------------------------------------------
static ssize_t do_read(int fd, void *buf, size_t n, bool peek = false) {
	File *f = fd_get(fd); BADF(f);
	chk(buf, n, "read");
	switch (f->kind) {
	case File::STREAM: {
		Stream *s = (Stream *)f;
		for (;;) {
			ssize_t r = k_recv(s, (char *)buf, n, peek);
			if (r == -1 && errno == EAGAIN && !(f->flags & O_NONBLOCK)) { block_until("read", [s]() { return (s->poll() & (EPOLLIN | EPOLLERR | EPOLLHUP)) != 0; }, -1); continue; }
			tr("read fd %d -> %d", fd, (int)(r < 0 ? -errno : r));
			return r;
		}
	}
	case File::EVENTFD: {
		EventFd *e = (EventFd *)f;
		if (!e->v) { if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; } block_until("eventfd", [e]() { return e->v != 0; }, -1); }
		memcpy(buf, &e->v, 8); e->v = 0; kernel_changed(); return 8;
	}
	case File::PIPE: {
		PipeEnd *p = (PipeEnd *)f;
		if (!p->b->q.size()) {
			if (p->b->w == 0) return 0;
			if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
			block_until("pipe read", [p]() { return p->b->q.size() || p->b->w == 0; }, -1);
		}
		ssize_t r = p->b->q.pop((char *)buf, n); kernel_changed(); return r;
	}
	case File::REG: {
		RegFile *r = (RegFile *)f;
		if (r->n->dir) { errno = EISDIR; return -1; }
		if (FAULT("disk_eintr")) { errno = EINTR; return -1; }
		if (FAULT("disk_read_eio")) { errno = EIO; return -1; }
		size_t sz = r->n->data.size();
		if ((size_t)r->pos >= sz) return 0;
		size_t m = std::min(n, sz - (size_t)r->pos);
		if (m > 1 && FAULT("disk_short_read")) m = 1 + decide("disk_short_read.n", m - 1);
		memcpy(buf, r->n->data.data() + r->pos, m); r->pos += m; progress();
		return m;
	}
	default: errno = EINVAL; return -1;
	}
}
static ssize_t file_pwrite(RegFile *r, const char *buf, size_t n, off_t pos) {
	if (FAULT("disk_eintr")) { errno = EINTR; return -1; }
	if (FAULT("disk_enospc")) { errno = ENOSPC; return -1; }
	if (FAULT("disk_write_eio")) { errno = EIO; return -1; }
	size_t m = n;
	if (m > 1 && FAULT("disk_short_write")) m = 1 + decide("disk_short_write.n", m - 1);
	std::string &d = r->n->data;
	if (d.size() < (size_t)pos + m) d.resize(pos + m);
	memcpy(&d[pos], buf, m);
	r->n->mtime = now() + realtime_off; r->n->version++;
	vfs_ops++;
	if (vfs_write_observer) vfs_write_observer(r, buf, m);
	if (vfs_observer) vfs_observer("write", r->path);
	progress();
	return m;
}
static ssize_t do_write(int fd, const void *buf, size_t n) {
	File *f = fd_get(fd); BADF(f);
	chk(buf, n, "write");
	switch (f->kind) {
	case File::STREAM: {
		Stream *s = (Stream *)f;
		for (;;) {
			ssize_t r = k_send(s, (const char *)buf, n);
			if (r == -1 && errno == EAGAIN && !(f->flags & O_NONBLOCK)) { block_until("write", [s]() { return (s->poll() & (EPOLLOUT | EPOLLERR | EPOLLHUP)) != 0; }, -1); continue; }
			if (r == -1 && errno == EPIPE) { if (!raise_signal(SIGPIPE)) violation("*", "sigpipe", "write to a closed connection with SIGPIPE at its default action kills the process"); errno = EPIPE; }
			tr("write fd %d %d -> %d", fd, (int)n, (int)(r < 0 ? -errno : r));
			return r;
		}
	}
	case File::EVENTFD: { EventFd *e = (EventFd *)f; uint64_t v; memcpy(&v, buf, 8); e->v += v; kernel_changed(); return 8; }
	case File::PIPE: {
		PipeEnd *p = (PipeEnd *)f;
		if (p->b->r == 0) { errno = EPIPE; return -1; }
		if (p->b->q.size() >= p->b->cap) { if (f->flags & O_NONBLOCK) { errno = EAGAIN; return -1; } block_until("pipe write", [p]() { return p->b->q.size() < p->b->cap || p->b->r == 0; }, -1); }
		size_t m = std::min(n, p->b->cap - p->b->q.size()); p->b->q.push((const char *)buf, m); kernel_changed(); return m;
	}
	case File::REG: {
		RegFile *r = (RegFile *)f;
		off_t pos = (f->flags & O_APPEND) ? (off_t)r->n->data.size() : r->pos;
		ssize_t w = file_pwrite(r, (const char *)buf, n, pos);
		if (w > 0) r->pos = pos + w;
		return w;
	}
	default: errno = EINVAL; return -1;
	}
}

EXPORT ssize_t read(int fd, void *buf, size_t n) {
	if (!SIMFD(fd)) return ret(raw3(SYS_read, fd, (long)buf, n));
	Enter e; tick("read"); return do_read(fd, buf, n);
}
EXPORT ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read(fd, buf, n); }
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
	if (!SIMFD(fd)) return ret(raw3(SYS_write, fd, (long)buf, n));
	Enter e; tick("write"); ssize_t r = do_write(fd, buf, n);
	if (r > 0) { File *f = fd_get(fd); if (f && (f->kind == File::EVENTFD || f->kind == File::PIPE)) wake_point("write"); }
	return r;
}
EXPORT ssize_t recv(int fd, void *buf, size_t n, int fl) {
	if (!SIMFD(fd)) return ret(raw6(SYS_recvfrom, fd, (long)buf, n, fl, 0, 0));
	Enter e; tick("recv"); return do_read(fd, buf, n, fl & MSG_PEEK);
}
EXPORT ssize_t send(int fd, const void *buf, size_t n, int fl) {
	if (!SIMFD(fd)) return ret(raw6(SYS_sendto, fd, (long)buf, n, fl, 0, 0));
	Enter e; tick("send"); return do_write(fd, buf, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt) {
	if (!SIMFD(fd)) return ret(raw3(SYS_writev, fd, (long)iov, cnt));
	Enter e; tick("writev");
	if (cnt <= 0 || cnt > 1024) { errno = EINVAL; return -1; }
	std::string b;
	for (int i = 0; i < cnt; ++i) { chk(iov[i].iov_base, iov[i].iov_len, "writev"); b.append((const char *)iov[i].iov_base, iov[i].iov_len); }
	return do_write(fd, b.data(), b.size());
}
EXPORT ssize_t readv(int fd, const struct iovec *iov, int cnt) {
	if (!SIMFD(fd)) return ret(raw3(SYS_readv, fd, (long)iov, cnt));
	Enter e; tick("readv");
	return do_read(fd, iov[0].iov_base, iov[0].iov_len);
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
	if (!SIMFD(fd)) return ret(raw3(SYS_sendmsg, fd, (long)m, fl));
	Enter e; tick("sendmsg");
	std::string b;
	for (size_t i = 0; i < m->msg_iovlen; ++i) b.append((const char *)m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
	File *f = fd_get(fd); BADF(f);
	if (f->kind == File::STREAM && m->msg_controllen) {
		Stream *s = (Stream *)f;
		std::vector<int> v;
		for (cmsghdr *c = CMSG_FIRSTHDR(m); c; c = CMSG_NXTHDR((msghdr *)m, c))
			if (c->cmsg_level == SOL_SOCKET && c->cmsg_type == SCM_RIGHTS) { int k = (c->cmsg_len - CMSG_LEN(0)) / sizeof(int); for (int i = 0; i < k; ++i) { int x; memcpy(&x, CMSG_DATA(c) + i * sizeof(int), sizeof x); v.push_back(x); } }
		ssize_t r = do_write(fd, b.data(), b.size());
		if (r > 0 && v.size() && on_scm_send) on_scm_send(s, v);
		return r;
	}
	return do_write(fd, b.data(), b.size());
}
namespace sim { std::function<void(Stream *, std::vector<int>)> on_scm_send; }
EXPORT ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
	if (!SIMFD(fd)) return ret(raw3(SYS_recvmsg, fd, (long)m, fl));
	Enter e; tick("recvmsg");
	File *f = fd_get(fd); BADF(f);
	ssize_t r = do_read(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len);
	if (r < 0) return r;
	size_t want = m->msg_controllen;
	m->msg_controllen = 0;
	m->msg_flags = 0;
	if (r > 0 && f->kind == File::STREAM) {
		Stream *s = (Stream *)f;
		if (!s->fdq.empty() && want >= CMSG_SPACE(sizeof(int))) {
			auto v = s->fdq.front().second; s->fdq.pop_front();
			size_t k = std::min(v.size(), (want - CMSG_LEN(0)) / sizeof(int));
			m->msg_controllen = CMSG_SPACE(k * sizeof(int));
			cmsghdr *c = (cmsghdr *)m->msg_control;
			c->cmsg_level = SOL_SOCKET; c->cmsg_type = SCM_RIGHTS; c->cmsg_len = CMSG_LEN(k * sizeof(int));
			memcpy(CMSG_DATA(c), v.data(), k * sizeof(int));
		}
	}
	return r;
}
EXPORT ssize_t sendfile64(int out, int in, off64_t *off, size_t n) {
	if (!(sim_on() && (is_simfd(out) || is_simfd(in)))) return ret(raw6(SYS_sendfile, out, in, (long)off, n, 0, 0));
	Enter e; tick("sendfile");
	int fd = out; File *f = fd_get(out); BADF(f); fd = in; File *g = fd_get(in); BADF(g);
	if (g->kind != File::REG || f->kind != File::STREAM) { errno = EINVAL; return -1; }
	RegFile *r = (RegFile *)g;
	off_t pos = off ? *off : r->pos;
	size_t sz = r->n->data.size();
	if (FAULT("sendfile_einval")) { errno = EINVAL; return -1; }
	if (FAULT("disk_read_eio")) { errno = EIO; return -1; }
	if ((size_t)pos >= sz) { tr("sendfile fd %d <- %d off %lld: eof", out, in, (long long)pos); return 0; }
	size_t m = std::min(n, sz - (size_t)pos);
	ssize_t w = do_write(out, r->n->data.data() + pos, m);
	tr("sendfile fd %d <- %d off %lld n %d -> %d", out, in, (long long)pos, (int)n, (int)w);
	if (w > 0) { if (off) *off += w; else r->pos += w; }
	return w;
}
EXPORT ssize_t sendfile(int out, int in, off_t *off, size_t n) { return sendfile64(out, in, (off64_t *)off, n); }
EXPORT int close(int fd) {
	if (!SIMFD(fd)) return ret(raw3(SYS_close, fd, 0, 0));
	Enter e; tick("close");
	tr("close fd %d", fd);
	if (!fd_get(fd)) { violation("*", "double-close", "close(%d) on a descriptor that is not open", fd); }
	return fd_close(fd);
}
EXPORT int dup(int fd) {
	if (!SIMFD(fd)) return ret(raw3(SYS_dup, fd, 0, 0));
	Enter e; if (FAULT("dup_fail")) { errno = EMFILE; return -1; } return fd_dup(fd, 0);
}
EXPORT int dup2(int a, int b) {
	if (!(sim_on() && (is_simfd(a) || is_simfd(b)))) return ret(raw3(SYS_dup2, a, b, 0));
	errno = EINVAL; return -1;
}
static int do_fcntl(int fd, int cmd, long arg) {
	if (!SIMFD(fd)) return ret(raw3(SYS_fcntl, fd, cmd, arg));
	Enter e;
	File *f = fd_get(fd); BADF(f);
	switch (cmd) {
	case F_GETFL: return f->flags | O_RDWR;
	case F_SETFL: f->flags = (f->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); return 0;
	case F_GETFD: return FD_CLOEXEC; case F_SETFD: return 0;
	case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_dup(fd, (int)arg);
	case F_SETLK: case F_SETLKW: case F_GETLK: return 0;
	}
	errno = EINVAL; return -1;
}
EXPORT int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
#include <sys/ioctl.h>
EXPORT int ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
	if (!SIMFD(fd)) return ret(raw3(SYS_ioctl, fd, req, (long)a));
	Enter e; File *f = fd_get(fd); BADF(f);
	if (req == FIONBIO) { if (*(int *)a) f->flags |= O_NONBLOCK; else f->flags &= ~O_NONBLOCK; return 0; }
	if (req == FIONREAD && f->kind == File::STREAM) { Stream *s = (Stream *)f; *(int *)a = s->c ? (int)s->c->h[1 - s->side].rcv.size() : 0; return 0; }
	if (req == FIONREAD && f->kind == File::PIPE) { *(int *)a = (int)((PipeEnd *)f)->b->q.size(); return 0; }
	errno = EINVAL; return -1;
}

// ---- sockets -------------------------------------------------------------------------------------
EXPORT int socket(int dom, int type, int proto) {
	if (!sim_on() || (dom != AF_INET && dom != AF_INET6 && dom != AF_UNIX)) return ret(raw3(SYS_socket, dom, type, proto));
	Enter e; tick("socket");
	if (FAULT("socket_emfile")) { errno = EMFILE; return -1; }
	Stream *s = new Stream; s->family = dom;
	if (type & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
	int fd = fd_alloc(s);
	if (fd < 0) delete s;
	tr("socket -> fd %d", fd);
	return fd;
}
EXPORT int socketpair(int d, int t, int p, int *sv) {
	if (!sim_on() || !on_socketpair) return ret(raw6(SYS_socketpair, d, t, p, (long)sv, 0, 0));
	Enter e; tick("socketpair");
	if (FAULT("socketpair_fail")) { errno = EMFILE; return -1; }
	ChildEnd *ce = new ChildEnd; LinkOpts lo;
	int b = fd_alloc(ce); if (b < 0) { delete ce; return -1; }
	Peer *pe = on_socketpair(lo, ce);
	int a = net_pair_fd(pe, lo, AF_UNIX);
	if (a < 0) { fd_close(b); errno = EMFILE; return -1; }
	sv[0] = a; sv[1] = b;
	tr("socketpair -> %d %d", a, b);
	return 0;
}
EXPORT int bind(int fd, const struct sockaddr *sa, socklen_t len) {
	if (!SIMFD(fd)) return ret(raw3(SYS_bind, fd, (long)sa, len));
	Enter e; tick("bind");
	File *f = fd_get(fd); BADF(f);
	Stream *s = (Stream *)f; s->local = from_sockaddr(sa, len); s->bound = true;
	if (find_listener(s->local.str)) { errno = EADDRINUSE; return -1; }
	if (FAULT("bind_fail")) { errno = EADDRINUSE; return -1; }
	return 0;
}
EXPORT int listen(int fd, int backlog) {
	if (!SIMFD(fd)) return ret(raw3(SYS_listen, fd, backlog, 0));
	Enter e; tick("listen");
	File *f = fd_get(fd); BADF(f);
	if (f->kind == File::LISTEN) return 0;
	Stream *s = (Stream *)f;
	Listen *l = new Listen; l->addr = s->local; l->backlog = backlog; l->flags = s->flags;
	// replace in table (descriptor keeps its number)
	fd_swap(fd, l);
	register_listener(l);
	tr("listen fd %d on %s", fd, l->addr.str.c_str());
	return 0;
}
static int do_accept(int fd, struct sockaddr *sa, socklen_t *len, int fl) {
	File *f = fd_get(fd); BADF(f);
	if (f->kind != File::LISTEN) { errno = EINVAL; return -1; }
	Listen *l = (Listen *)f;
	if (l->q.empty()) { errno = EAGAIN; return -1; }
	if (FAULT("accept_emfile")) { errno = decide("accept_err", 2) ? ENFILE : EMFILE; return -1; }
	if (FAULT("accept_aborted")) { errno = ECONNABORTED; Conn *c = l->q.front(); l->q.pop_front(); c->gone[1] = true; if (c->actor[0]) { ActorSock *a = c->actor[0]; after(c->opt.lat, [a]() { if (!a->closed && !a->reset) { a->reset = true; if (a->peer) a->peer->on_reset(); } }); } return -1; }
	if (FAULT("accept_eagain")) { errno = EAGAIN; return -1; }
	Conn *c = l->q.front();
	Stream *s = new Stream; s->family = l->addr.ss.ss_family; s->c = c; s->side = 1; s->connected = true;
	if (fl & SOCK_NONBLOCK) s->flags |= O_NONBLOCK;
	s->local = l->addr; s->remote = c->addr[0];
	int n = fd_alloc(s);
	if (n < 0) { delete s; return -1; }
	l->q.pop_front();
	c->sock[1] = s;
	if (c->rst_arrived[1]) s->so_error = ECONNRESET;
	if (sa && len) { socklen_t m = std::min<socklen_t>(*len, s->remote.len); memcpy(sa, &s->remote.ss, m); *len = s->remote.len; }
	accept_count++; live_sut_conns++;
	tr("accept fd %d -> %d (c%llu)", fd, n, (unsigned long long)c->id);
	progress(); kernel_changed();
	if (on_sut_accept) on_sut_accept(s);
	return n;
}
EXPORT int accept(int fd, struct sockaddr *sa, socklen_t *len) {
	if (!SIMFD(fd)) return ret(raw3(SYS_accept, fd, (long)sa, (long)len));
	Enter e; tick("accept"); return do_accept(fd, sa, len, 0);
}
EXPORT int accept4(int fd, struct sockaddr *sa, socklen_t *len, int fl) {
	if (!SIMFD(fd)) return ret(raw6(SYS_accept4, fd, (long)sa, (long)len, fl, 0, 0));
	Enter e; tick("accept"); return do_accept(fd, sa, len, fl);
}
EXPORT int connect(int fd, const struct sockaddr *sa, socklen_t len) {
	if (!SIMFD(fd)) return ret(raw3(SYS_connect, fd, (long)sa, len));
	Enter e; tick("connect");
	File *f = fd_get(fd); BADF(f);
	Stream *s = (Stream *)f;
	if (s->connecting) { errno = EALREADY; return -1; }
	if (s->connected) { errno = EISCONN; return -1; }
	if (s->so_error) { errno = s->so_error; s->so_error = 0; return -1; }
	if (FAULT("connect_eintr")) { errno = EINTR; return -1; }
	return k_connect(s, from_sockaddr(sa, len));
}
EXPORT int shutdown(int fd, int how) {
	if (!SIMFD(fd)) return ret(raw3(SYS_shutdown, fd, how, 0));
	Enter e; tick("shutdown");
	File *f = fd_get(fd); BADF(f);
	if (f->kind != File::STREAM) { errno = ENOTSOCK; return -1; }
	Stream *s = (Stream *)f;
	if (!s->c || s->c->rst_arrived[s->side]) { errno = ENOTCONN; return -1; }
	tr("shutdown fd %d how %d", fd, how);
	if (how == SHUT_WR || how == SHUT_RDWR) { s->shut_wr = true; s->c->h[s->side].fin_queued = true; pump(s->c, s->side); }
	if (how == SHUT_RD || how == SHUT_RDWR) s->shut_rd = true;
	kernel_changed();
	return 0;
}
EXPORT int setsockopt(int fd, int lv, int op, const void *v, socklen_t len) {
	if (!SIMFD(fd)) return ret(raw6(SYS_setsockopt, fd, lv, op, (long)v, len, 0));
	Enter e; int x = fd; (void)x; File *f = fd_get(fd); BADF(f); return 0;
}
EXPORT int getsockopt(int fd, int lv, int op, void *v, socklen_t *len) {
	if (!SIMFD(fd)) return ret(raw6(SYS_getsockopt, fd, lv, op, (long)v, (long)len, 0));
	Enter e; tick("getsockopt");
	File *f = fd_get(fd); BADF(f);
	if (lv == SOL_SOCKET && op == SO_ERROR && f->kind == File::STREAM) { Stream *s = (Stream *)f; *(int *)v = s->so_error; s->so_error = 0; *len = sizeof(int); return 0; }
	if (lv == SOL_SOCKET && op == SO_TYPE) { *(int *)v = SOCK_STREAM; *len = 4; return 0; }
	*(int *)v = 0; *len = 4;
	return 0;
}
static int put_addr(const SockAddr &a, struct sockaddr *sa, socklen_t *len) { memcpy(sa, &a.ss, std::min<socklen_t>(*len, a.len)); *len = a.len; return 0; }
EXPORT int getpeername(int fd, struct sockaddr *sa, socklen_t *len) {
	if (!SIMFD(fd)) return ret(raw3(SYS_getpeername, fd, (long)sa, (long)len));
	Enter e; File *f = fd_get(fd); BADF(f); if (f->kind != File::STREAM) { errno = ENOTSOCK; return -1; }
	Stream *st = (Stream *)f; if (!st->c || !st->connected || st->c->rst_arrived[st->side]) { errno = ENOTCONN; return -1; }
	return put_addr(st->remote, sa, len);
}
EXPORT int getsockname(int fd, struct sockaddr *sa, socklen_t *len) {
	if (!SIMFD(fd)) return ret(raw3(SYS_getsockname, fd, (long)sa, (long)len));
	Enter e; File *f = fd_get(fd); BADF(f);
	return put_addr(f->kind == File::LISTEN ? ((Listen *)f)->addr : ((Stream *)f)->local, sa, len);
}

// ---- epoll / eventfd / pipe --------------------------------------------------------------------
EXPORT int epoll_create1(int fl) {
	if (!sim_on()) return ret(raw3(SYS_epoll_create1, fl, 0, 0));
	Enter e; Epoll *p = new Epoll; int fd = fd_alloc(p); if (fd < 0) delete p; return fd;
}
EXPORT int epoll_create(int) { return epoll_create1(0); }
EXPORT int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
	if (!SIMFD(ep)) return ret(raw6(SYS_epoll_ctl, ep, op, fd, (long)ev, 0, 0));
	Enter e; syscall_tick();
	File *f = fd_get(ep); if (!f || f->kind != File::EPOLL) { errno = EBADF; return -1; }
	Epoll *p = (Epoll *)f;
	File *t = fd_get(fd);
	if (!t) { tr("epoll_ctl EBADF fd %d", fd); errno = EBADF; return -1; }
	if (t->kind == File::REG) { errno = EPERM; return -1; }
	auto it = p->m.find(fd);
	if (it != p->m.end() && it->second.f != t) it = p->m.end();
	kernel_changed();
	switch (op) {
	case EPOLL_CTL_ADD:
		if (it != p->m.end()) { errno = EEXIST; return -1; }
		p->m[fd] = {t, fd, ev->events, ev->data.u64, true}; t->eps.push_back(p); return 0;
	case EPOLL_CTL_MOD:
		if (it == p->m.end()) { errno = ENOENT; return -1; }
		it->second.events = ev->events; it->second.data = ev->data.u64; it->second.armed = true; return 0;
	case EPOLL_CTL_DEL:
		if (it == p->m.end()) { errno = ENOENT; return -1; }
		p->m.erase(it);
		for (auto v = t->eps.begin(); v != t->eps.end(); ++v) if (*v == p) { t->eps.erase(v); break; }
		return 0;
	}
	errno = EINVAL; return -1;
}
static bool ep_ready(Epoll *p) {
	for (auto &k : p->m) if (k.second.f->poll() & (k.second.events | EPOLLERR | EPOLLHUP) & ~EPOLLET) return true;
	return false;
}
EXPORT int epoll_wait(int ep, struct epoll_event *ev, int max, int timeout) {
	if (!SIMFD(ep)) return ret(raw6(SYS_epoll_wait, ep, (long)ev, max, timeout, 0, 0));
	Enter e; tick("epoll_wait");
	File *f = fd_get(ep); if (!f || f->kind != File::EPOLL) { errno = EBADF; return -1; }
	Epoll *p = (Epoll *)f;
	if (FAULT("epoll_eintr")) { errno = EINTR; return -1; }
	if (timeout != 0) block_until("epoll_wait", [p]() { return ep_ready(p); }, timeout < 0 ? -1 : now() + (vtime)timeout * MS);
	if (timeout != 0 && FAULT("late_wakeup")) { delay_self(late_grid ? late_grid - now() % late_grid : (vtime)pick_log("late.us", 1, 10000) * US); if (!(f = fd_get(ep)) || f != (File *)p) { errno = EBADF; return -1; } }   // further events become ready meanwhile
	std::vector<Epoll::E *> r;
	for (auto &k : p->m) if (k.second.f->poll() & (k.second.events | EPOLLERR | EPOLLHUP) & ~EPOLLET) r.push_back(&k.second);
	// order of ready descriptors is unspecified: rotate / swap
	if (r.size() > 1) { uint32_t k = decide_p("epoll.rot", 0.3, r.size()); std::rotate(r.begin(), r.begin() + k, r.end()); }
	int n = std::min<int>(r.size(), max);
	if (n > 1) n -= decide_p("epoll.fewer", 0.1, n);
	for (int i = 0; i < n; ++i) {
		ev[i].events = r[i]->f->poll() & (r[i]->events | EPOLLERR | EPOLLHUP);
		ev[i].data.u64 = r[i]->data;
		tr("epoll fd %d ev %x", r[i]->fd, ev[i].events);
	}
	return n;
}
EXPORT int eventfd(unsigned v, int fl) {
	if (!sim_on()) return ret(raw3(SYS_eventfd2, v, fl, 0));
	Enter e; EventFd *p = new EventFd; p->v = v; int fd = fd_alloc(p, fl & O_NONBLOCK); if (fd < 0) delete p; return fd;
}
EXPORT int pipe2(int *fds, int fl) {
	if (!sim_on()) return ret(raw3(SYS_pipe2, (long)fds, fl, 0));
	Enter e;
	if (FAULT("pipe_fail")) { errno = EMFILE; return -1; }
	auto b = std::make_shared<PipeBuf>(); b->r = b->w = 1; last_pipe = b;
	PipeEnd *r = new PipeEnd(true), *w = new PipeEnd(false); r->b = w->b = b;
	fds[0] = fd_alloc(r, fl & O_NONBLOCK); fds[1] = fd_alloc(w, fl & O_NONBLOCK);
	return fds[0] < 0 || fds[1] < 0 ? -1 : 0;
}
EXPORT int pipe(int *fds) { return pipe2(fds, 0); }
EXPORT int timerfd_create(int, int) { errno = ENOSYS; return -1; }
EXPORT int inotify_init1(int) { errno = ENOSYS; return -1; }
EXPORT int inotify_init(void) { errno = ENOSYS; return -1; }
EXPORT int signalfd(int, const sigset_t *, int) { errno = ENOSYS; return -1; }
EXPORT int poll(struct pollfd *p, nfds_t n, int timeout) {
	bool any = false; for (nfds_t i = 0; i < n; ++i) if (is_simfd(p[i].fd)) any = true;
	if (!sim_on() || (!any && n)) return ret(raw3(SYS_poll, (long)p, n, timeout));
	Enter e; tick("poll");
	auto chkr = [p, n]() { int c = 0; for (nfds_t i = 0; i < n; ++i) { p[i].revents = 0; File *f = is_simfd(p[i].fd) ? fd_get(p[i].fd) : nullptr; if (!f) { p[i].revents = POLLNVAL; ++c; continue; } uint32_t r = f->poll(); p[i].revents = r & (p[i].events | POLLERR | POLLHUP); if (p[i].revents) ++c; } return c; };
	block_until("poll", [&]() { return chkr() > 0; }, timeout < 0 ? -1 : now() + (vtime)timeout * MS);
	return chkr();
}

// ---- time ------------------------------------------------------------------------------------------
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
	if (!sim_on()) { if (active) { vtime t = (id == CLOCK_REALTIME) ? now_ns + realtime_off : now_ns + 1000 * SEC; ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC; return 0; } return ret(raw3(SYS_clock_gettime, id, (long)ts, 0)); }
	vtime t = now_ns + 1000 * SEC;
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t = now_ns + realtime_off;
	ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
	return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) {
	if (!active) return ret(raw3(SYS_gettimeofday, (long)tv, 0, 0));
	vtime t = now_ns + realtime_off; tv->tv_sec = t / SEC; tv->tv_usec = (t % SEC) / 1000; return 0;
}
EXPORT time_t time(time_t *p) {
	time_t t;
	if (!active) { struct timespec ts; raw3(SYS_clock_gettime, CLOCK_REALTIME, (long)&ts, 0); t = ts.tv_sec; }
	else t = (now_ns + realtime_off) / SEC;
	if (p) *p = t;
	return t;
}
EXPORT int nanosleep(const struct timespec *ts, struct timespec *rem) {
	if (!sim_on()) return ret(raw3(SYS_nanosleep, (long)ts, (long)rem, 0));
	Enter e; block_until("nanosleep", []() { return false; }, now() + ts->tv_sec * SEC + ts->tv_nsec);
	if (rem) rem->tv_sec = rem->tv_nsec = 0;
	return 0;
}
EXPORT int usleep(useconds_t us) { struct timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
EXPORT unsigned sleep(unsigned s) { struct timespec ts = {(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
EXPORT int sched_yield(void) { if (sim_on()) { Enter e; tick("sched_yield"); } return 0; }

// ---- identity / randomness -------------------------------------------------------------------------
EXPORT pid_t getpid(void) { if (active) return 4242; return (pid_t)raw3(SYS_getpid, 0, 0, 0); }
static uint64_t rnd_ctr = 0;
static void det_random(void *b, size_t n) { unsigned char *p = (unsigned char *)b; uint64_t v = 0; for (size_t i = 0; i < n; ++i) { if (i % 8 == 0) v = mix(0x5eedull + (rnd_ctr++) * 7919); p[i] = (unsigned char)(v >> (8 * (i % 8))); } }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned) { if (!active) return ret(raw3(SYS_getrandom, (long)b, n, 0)); det_random(b, n); return n; }
EXPORT int getentropy(void *b, size_t n) { det_random(b, n); return 0; }
EXPORT int getrlimit64(__rlimit_resource_t r, struct rlimit64 *l) {
	if (sim_on() && r == RLIMIT_NOFILE) { l->rlim_cur = rlimit_nofile; l->rlim_max = rlimit_nofile; return 0; }
	return ret(raw6(SYS_prlimit64, 0, r, 0, (long)l, 0, 0));
}
EXPORT int setrlimit64(__rlimit_resource_t r, const struct rlimit64 *l) {
	if (sim_on()) { if (r == RLIMIT_NOFILE) rlimit_nofile = l->rlim_cur; return 0; }
	return ret(raw6(SYS_prlimit64, 0, r, (long)l, 0, 0, 0));
}
EXPORT int sched_setaffinity(pid_t, size_t, const cpu_set_t *) { return 0; }

// ---- signals -----------------------------------------------------------------------------------------
EXPORT int sigaction(int sig, const struct sigaction *sa, struct sigaction *old) {
	typedef int (*fn_t)(int, const struct sigaction *, struct sigaction *);
	static fn_t real = (fn_t)dlsym(RTLD_NEXT, "sigaction");
	if (!sim_on()) return real(sig, sa, old);
	if (sig < 1 || sig > 64) { errno = EINVAL; return -1; }
	if (old) { if (sig_set[sig]) *old = sigs[sig]; else memset(old, 0, sizeof *old); }
	if (sa) { sigs[sig] = *sa; sig_set[sig] = true; }
	return 0;
}
EXPORT void (*signal(int sig, void (*h)(int)))(int) {
	typedef void (*(*fn_t)(int, void (*)(int)))(int);
	static fn_t real = (fn_t)dlsym(RTLD_NEXT, "signal");
	if (!sim_on()) return real(sig, h);
	if (sig >= 1 && sig <= 64) { memset(&sigs[sig], 0, sizeof sigs[sig]); sigs[sig].sa_handler = h; sig_set[sig] = true; }
	return SIG_DFL;
}
namespace sim {
// deliver a signal to the simulated process (runs the handler on the current thread)
bool raise_signal(int sig) {
	tr("signal %d delivered", sig);
	if (!sig_set[sig] || sigs[sig].sa_handler == SIG_DFL) return false;
	if (sigs[sig].sa_handler == SIG_IGN) return true;
	int save = in_sim; in_sim = 0;
	int e = errno;
	sigs[sig].sa_handler(sig);
	errno = e;
	in_sim = save;
	return true;
}
}

// ---- processes -----------------------------------------------------------------------------------------
EXPORT pid_t fork(void) {
	if (!sim_on()) { typedef pid_t (*fn_t)(void); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "fork"); return real(); }
	Enter e; tick("fork");
	if (on_fork) return on_fork();
	errno = EAGAIN; return -1;
}
EXPORT int kill(pid_t p, int sig) {
	if (!sim_on()) return ret(raw3(SYS_kill, p, sig, 0));
	Enter e; tick("kill");
	tr("kill pid %d sig %d", (int)p, sig);
	if (on_kill) return on_kill(p, sig);
	errno = ESRCH; return -1;
}
EXPORT pid_t waitpid(pid_t p, int *st, int opt) {
	if (!sim_on()) return ret(raw6(SYS_wait4, p, (long)st, opt, 0, 0, 0));
	Enter e;
	if (on_waitpid) return on_waitpid(p, st, opt);
	errno = ECHILD; return -1;
}
namespace sim { std::function<void(int)> on_exit_call; }
EXPORT void exit(int code) {
	typedef void (*fn_t)(int) __attribute__((noreturn));
	if (sim_on()) { Enter e; tr("exit(%d)", code); if (on_exit_call) on_exit_call(code); violation("*", "exit", "code under test called exit(%d)", code); }
	static fn_t real = (fn_t)dlsym(RTLD_NEXT, "exit");
	real(code);
	__builtin_unreachable();
}

// ---- threads -------------------------------------------------------------------------------------------
struct TStart { void *(*fn)(void *); void *arg; int id; };
static std::map<unsigned long, int> tid_of;  // pthread_t -> sim id
// Thread-specific destructors of the code under test must run while this thread still holds the baton, so the
// hand-over happens in the last destructor round of a key of our own.
static pthread_key_t end_key; static bool end_key_ok = false;
static __thread int end_round = 0;
static void end_dtor(void *v) {
	if (++end_round < 4) { pthread_setspecific(end_key, v); return; }
	++in_sim;
	thread_end((int)(intptr_t)v - 1);
}
static void *tmain(void *p) {
	TStart *ts = (TStart *)p;
	++in_sim;
	thread_begin(ts->id);
	my_tid = ts->id;
	int id = ts->id; auto fn = ts->fn; auto arg = ts->arg;
	delete ts;
	if (!end_key_ok) { end_key_ok = true; pthread_key_create(&end_key, end_dtor); }
	pthread_setspecific(end_key, (void *)(intptr_t)(id + 1));
	--in_sim;
	return fn(arg);
}
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	typedef int (*fn_t)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
	static fn_t real = (fn_t)dlsym(RTLD_NEXT, "pthread_create");
	if (!sim_on()) return real(t, a, fn, arg);
	Enter e;
	TStart *ts = new TStart{fn, arg, 0};
	ts->id = thread_register();
	int r = real(t, a, tmain, ts);
	if (r) harness_error("pthread_create failed: %d", r);
	tid_of[(unsigned long)*t] = ts->id;
	tr("thread create t%d", ts->id);
	tick("pthread_create");
	return 0;
}
EXPORT int pthread_join(pthread_t t, void **rv) {
	typedef int (*fn_t)(pthread_t, void **);
	static fn_t real = (fn_t)dlsym(RTLD_NEXT, "pthread_join");
	if (!sim_on()) return real(t, rv);
	Enter e;
	auto it = tid_of.find((unsigned long)t);
	if (it == tid_of.end()) return ESRCH;
	int id = it->second;
	block_until("pthread_join", [id]() { return thread_done(id); }, -1);
	tid_of.erase((unsigned long)t);
	return real(t, rv);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
	typedef int (*fn_t)(pthread_mutex_t *);
	static fn_t rlock = (fn_t)dlsym(RTLD_NEXT, "pthread_mutex_lock");
	static fn_t rtry = (fn_t)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
	if (!sim_on()) return rlock(m);
	int r = rtry(m);
	if (r != EBUSY) return r;
	Enter e;
	/* the condition may be evaluated by any thread (the scheduler runs in the one which gives up the cpu), so
	 * it must only look: a trylock of a recursive mutex from its owner would succeed */
	do {
		block_until("pthread_mutex_lock", [m]() { return __atomic_load_n(&m->__data.__lock, __ATOMIC_SEQ_CST) == 0; }, -1);
		r = rtry(m);
	} while (r == EBUSY);
	return r;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
	typedef int (*fn_t)(pthread_mutex_t *);
	static fn_t real = (fn_t)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
	int r = real(m);
	if (active) kernel_changed();
	return r;
}
struct FWaiter { int *addr; bool woken; };
static std::vector<FWaiter *> fw;
static long do_futex(int *addr, int op, int val, const struct timespec *ts) {
	int cmd = op & 127;
	if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
		tick("futex");
		if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
		vtime dl = -1;
		if (ts) { dl = ts->tv_sec * SEC + ts->tv_nsec; if (cmd == FUTEX_WAIT) dl += now(); else dl -= 1000 * SEC; }
		FWaiter w{addr, false}; fw.push_back(&w);
		bool ok = block_until("futex", [&w]() { return w.woken; }, dl);
		fw.erase(std::find(fw.begin(), fw.end(), &w));
		if (!ok) { errno = ETIMEDOUT; return -1; }
		return 0;
	}
	if (cmd == FUTEX_WAKE) {
		int n = 0; std::vector<FWaiter *> c;
		for (auto w : fw) if (w->addr == addr && !w->woken) c.push_back(w);
		while (n < val && !c.empty()) { size_t i = decide("futex.wake", c.size()); c[i]->woken = true; c.erase(c.begin() + i); ++n; }
		kernel_changed();
		tick("futex_wake");
		return n;
	}
	errno = ENOSYS; return -1;
}
EXPORT long syscall(long n, ...) {
	va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e5 = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
	if (sim_on()) {
		if (n == SYS_futex) { Enter e; return do_futex((int *)a, (int)b, (int)c, (const struct timespec *)d); }
		if (n == SYS_getrandom) { det_random((void *)a, b); return b; }
	}
	return ret(raw6(n, a, b, c, d, e5, f));
}

// ---- files -----------------------------------------------------------------------------------------------
static inline bool vp(const char *p) { return p && (!strncmp(p, "/var/tmp", 8) || !strncmp(p, "/var/log/lighttpd2", 18) || ( p[0] == '/' && p[1] == 'v' && p[2] == 'f' && p[3] == 's' && (p[4] == '/' || !p[4]))); }
// the code under test must never modify the real file system
static inline bool denied(const char *p, const char *op) { if (!sim_on()) return false; if (!strcmp(p, "/dev/null")) return false; tr("denied %s %s", op, p); errno = EROFS; return true; }
namespace sim { vtime slow_total = 0; }
static void slow_disk() { if (FAULT("disk_slow")) { vtime d = pick_log("disk_slow.ms", 1, 3000) * MS; slow_total += d; block_until("slow disk", []() { return false; }, now() + d); } }
static void fill_stat(Inode *n, struct stat *st) {
	memset(st, 0, sizeof *st);
	st->st_ino = n->ino; st->st_dev = 7; st->st_nlink = n->nlink; st->st_mode = n->mode | (n->dir ? S_IFDIR : S_IFREG);
	st->st_size = n->dir ? 4096 : n->data.size(); st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
	st->st_mtim.tv_sec = n->mtime / SEC; st->st_mtim.tv_nsec = n->mtime % SEC; st->st_ctim = st->st_atim = st->st_mtim; if (n->moved > n->mtime) { st->st_ctim.tv_sec = n->moved / SEC; st->st_ctim.tv_nsec = n->moved % SEC; }
}
static int v_open(const char *path, int fl, mode_t mode) {
	tick("open"); slow_disk();
	std::string p(path);
	if (FAULT("open_eintr")) { errno = EINTR; return -1; }
	if (FAULT("open_emfile")) { errno = decide("open_err", 2) ? ENFILE : EMFILE; return -1; }
	if (FAULT("open_eio")) { errno = EIO; return -1; }
	Inode *n = vfs_lookup(p);
	if (!n) {
		if (errno != ENOENT || !(fl & O_CREAT)) { tr("open %s -> %d", path, -errno); return -1; }
		if (FAULT("disk_enospc")) { errno = ENOSPC; return -1; }
		Inode *d = vfs_lookup(p.substr(0, p.rfind('/')));
		if (!d) { errno = ENOENT; return -1; }
		if (!d->dir) { errno = ENOTDIR; return -1; }
		n = vfs_replace(p, ""); n->mode = mode & 0777; vfs_ops++;
		if (vfs_observer) vfs_observer("create", p);
	} else {
		if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
		if (!(n->mode & 0444)) { errno = EACCES; return -1; }
		if (n->dir && (fl & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
		if ((fl & O_TRUNC) && (fl & O_ACCMODE) != O_RDONLY) { n->data.clear(); n->version++; vfs_ops++; if (vfs_observer) vfs_observer("trunc", p); }
	}
	RegFile *f = new RegFile; f->n = n; f->path = p; n->opens++;
	int fd = fd_alloc(f, fl & (O_APPEND | O_NONBLOCK | O_ACCMODE));
	if (fd < 0) { n->opens--; delete f; }
	tr("open %s -> fd %d", path, fd);
	return fd;
}
#define MODE_ARG(m) mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open64(const char *path, int fl, ...) {
	MODE_ARG(m);
	if (!sim_on() || !vp(path)) { if ((fl & (O_CREAT | O_TRUNC | O_ACCMODE)) && denied(path, "open")) return -1; return ret(raw6(SYS_openat, AT_FDCWD, (long)path, fl, m, 0, 0)); }
	Enter e; return v_open(path, fl, m);
}
EXPORT int open(const char *path, int fl, ...) {
	MODE_ARG(m);
	if (!sim_on() || !vp(path)) { if ((fl & (O_CREAT | O_TRUNC | O_ACCMODE)) && denied(path, "open")) return -1; return ret(raw6(SYS_openat, AT_FDCWD, (long)path, fl, m, 0, 0)); }
	Enter e; return v_open(path, fl, m);
}
EXPORT int __open64_2(const char *path, int fl) { return open64(path, fl); }
EXPORT int __open_2(const char *path, int fl) { return open64(path, fl); }
EXPORT int creat64(const char *path, mode_t m) { return open64(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int v_stat(const char *path, struct stat *st) {
	tick("stat"); slow_disk();
	if (FAULT("stat_err")) { errno = decide("stat_err.n", 2) ? EACCES : EIO; return -1; }
	Inode *n = vfs_lookup(path);
	if (!n) return -1;
	fill_stat(n, st); return 0;
}
EXPORT int stat(const char *path, struct stat *st) { if (!sim_on() || !vp(path)) return ret(raw3(SYS_stat, (long)path, (long)st, 0)); Enter e; return v_stat(path, st); }
EXPORT int stat64(const char *path, struct stat64 *st) { return stat(path, (struct stat *)st); }
EXPORT int lstat(const char *path, struct stat *st) { if (!sim_on() || !vp(path)) return ret(raw3(SYS_lstat, (long)path, (long)st, 0)); Enter e; return v_stat(path, st); }
EXPORT int lstat64(const char *path, struct stat64 *st) { return lstat(path, (struct stat *)st); }
EXPORT int fstat(int fd, struct stat *st) {
	if (!SIMFD(fd)) return ret(raw3(SYS_fstat, fd, (long)st, 0));
	Enter e; File *f = fd_get(fd); BADF(f);
	if (f->kind == File::REG) { if (FAULT("fstat_err")) { errno = EIO; return -1; } fill_stat(((RegFile *)f)->n, st); return 0; }
	memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK | 0666; return 0;
}
EXPORT int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
EXPORT int access(const char *path, int m) {
	if (!sim_on() || !vp(path)) return ret(raw3(SYS_access, (long)path, m, 0));
	Enter e; Inode *n = vfs_lookup(path); return n ? 0 : -1;
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off64_t off) {
	if (!SIMFD(fd)) return ret(raw6(SYS_pread64, fd, (long)buf, n, off, 0, 0));
	Enter e; tick("pread");
	File *f = fd_get(fd); BADF(f); if (f->kind != File::REG) { errno = ESPIPE; return -1; }
	chk(buf, n, "pread");
	RegFile *r = (RegFile *)f;
	if (FAULT("disk_eintr")) { errno = EINTR; return -1; }
	if (FAULT("disk_read_eio")) { errno = EIO; return -1; }
	size_t sz = r->n->data.size();
	if ((size_t)off >= sz) return 0;
	size_t m = std::min(n, sz - (size_t)off);
	if (m > 1 && FAULT("disk_short_read")) m = 1 + decide("disk_short_read.n", m - 1);
	memcpy(buf, r->n->data.data() + off, m); progress();
	return m;
}
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t off) { return pread64(fd, buf, n, off); }
EXPORT ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t off) {
	if (!SIMFD(fd)) return ret(raw6(SYS_pwrite64, fd, (long)buf, n, off, 0, 0));
	Enter e; tick("pwrite");
	File *f = fd_get(fd); BADF(f); if (f->kind != File::REG) { errno = ESPIPE; return -1; }
	chk(buf, n, "pwrite");
	return file_pwrite((RegFile *)f, (const char *)buf, n, off);
}
EXPORT ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return pwrite64(fd, buf, n, off); }
EXPORT off64_t lseek64(int fd, off64_t off, int wh) {
	if (!SIMFD(fd)) return ret(raw3(SYS_lseek, fd, off, wh));
	Enter e; File *f = fd_get(fd); BADF(f); if (f->kind != File::REG) { errno = ESPIPE; return -1; }
	RegFile *r = (RegFile *)f;
	if (wh == SEEK_SET) r->pos = off; else if (wh == SEEK_CUR) r->pos += off; else r->pos = r->n->data.size() + off;
	return r->pos;
}
EXPORT off_t lseek(int fd, off_t off, int wh) { return lseek64(fd, off, wh); }
EXPORT int ftruncate64(int fd, off64_t len) {
	if (!SIMFD(fd)) return ret(raw3(SYS_ftruncate, fd, len, 0));
	Enter e; tick("ftruncate"); File *f = fd_get(fd); BADF(f); ((RegFile *)f)->n->data.resize(len); ((RegFile *)f)->n->version++; vfs_ops++; return 0;
}
EXPORT int ftruncate(int fd, off_t len) { return ftruncate64(fd, len); }
EXPORT int fsync(int fd) { if (!SIMFD(fd)) return ret(raw3(SYS_fsync, fd, 0, 0)); return 0; }
EXPORT int fdatasync(int fd) { if (!SIMFD(fd)) return ret(raw3(SYS_fdatasync, fd, 0, 0)); return 0; }
EXPORT int posix_fadvise64(int fd, off64_t a, off64_t b, int c) { if (!SIMFD(fd)) return -(int)raw6(SYS_fadvise64, fd, a, b, c, 0, 0); return 0; }
EXPORT int posix_fadvise(int fd, off_t a, off_t b, int c) { return posix_fadvise64(fd, a, b, c); }
EXPORT int fallocate64(int fd, int m, off64_t a, off64_t b) { if (!SIMFD(fd)) return ret(raw6(SYS_fallocate, fd, m, a, b, 0, 0)); return 0; }
EXPORT int unlink(const char *path) {
	if (!sim_on() || !vp(path)) { if (denied(path, "unlink")) return -1; return ret(raw3(SYS_unlink, (long)path, 0, 0)); }
	Enter e; tick("unlink");
	Inode *n = vfs_lookup(path); if (!n) return -1;
	if (n->dir) { errno = EISDIR; return -1; }
	tr("unlink %s", path);
	vfs_unlink(path); vfs_ops++; if (vfs_observer) vfs_observer("unlink", path);
	return 0;
}
EXPORT int remove(const char *path) { return unlink(path); }
EXPORT int rename(const char *a, const char *b) {
	if (!sim_on() || !vp(a)) { if (denied(a, "rename")) return -1; return ret(raw3(SYS_rename, (long)a, (long)b, 0)); }
	Enter e; tick("rename");
	if (FAULT("rename_err")) { errno = EIO; return -1; }
	Inode *n = vfs_lookup(a); if (!n) return -1;
	std::string sb(b), sa(a);
	Inode *db = vfs_lookup(sb.substr(0, sb.rfind('/'))); if (!db) return -1;
	n->nlink++; vfs_unlink(sa); n->nlink--; n->nlink = 1;
	std::string nm = sb.substr(sb.rfind('/') + 1);
	if (db->ch.count(nm)) vfs_unlink(sb);
	db->ch[nm] = n; vfs_ops++;
	tr("rename %s %s", a, b);
	if (vfs_observer) vfs_observer("rename", sb);
	return 0;
}
EXPORT int mkdir(const char *path, mode_t m) {
	if (!sim_on() || !vp(path)) { if (denied(path, "mkdir")) return -1; return ret(raw3(SYS_mkdir, (long)path, m, 0)); }
	Enter e; tick("mkdir");
	std::string p(path); while (p.size() > 1 && p.back() == '/') p.pop_back();
	if (vfs_lookup(p)) { errno = EEXIST; return -1; }
	if (FAULT("disk_enospc")) { errno = ENOSPC; return -1; }
	Inode *up = vfs_lookup(p.substr(0, p.rfind('/')));
	if (!up) { errno = ENOENT; return -1; }
	if (!up->dir) { errno = ENOTDIR; return -1; }
	vfs_mkdirs(p); vfs_ops++; if (vfs_observer) vfs_observer("mkdir", p);
	return 0;
}
EXPORT int rmdir(const char *path) { if (!sim_on() || !vp(path)) { if (denied(path, "rmdir")) return -1; return ret(raw3(SYS_rmdir, (long)path, 0, 0)); } Enter e; vfs_unlink(path); return 0; }
EXPORT int chmod(const char *path, mode_t m) { if (!sim_on() || !vp(path)) { if (denied(path, "chmod")) return -1; return ret(raw3(SYS_chmod, (long)path, m, 0)); } return 0; }
static int v_mkstemp(char *t) {
	tick("mkstemp"); slow_disk();
	if (FAULT("mkstemp_err")) { errno = decide("mkstemp_err.n", 2) ? ENOSPC : EMFILE; return -1; }
	static int ctr = 0;
	size_t l = strlen(t); char b[16];
	do { snprintf(b, sizeof b, "%06d", ++ctr % 1000000); memcpy(t + l - 6, b, 6); } while (vfs_lookup(t));
	return v_open(t, O_CREAT | O_EXCL | O_RDWR, 0600);
}
EXPORT int mkstemp64(char *t) {
	typedef int (*fn_t)(char *); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "mkstemp64");
	if (!sim_on() || !vp(t)) return real(t);
	Enter e; return v_mkstemp(t);
}
EXPORT int mkstemp(char *t) { return mkstemp64(t); }
EXPORT int mkostemp64(char *t, int) { return mkstemp64(t); }
static std::map<uintptr_t, std::pair<size_t, std::string>> live_maps;
EXPORT int munmap(void *a, size_t n) {
	typedef int (*fn_t)(void *, size_t); static fn_t real;
	if (sim_on() && !live_maps.empty()) {
		Guard g; auto it = live_maps.find((uintptr_t)a);
		if (it != live_maps.end()) { size_t r = (n + 4095) & ~4095ul; if (r >= it->second.first) live_maps.erase(it); else it->second.first -= r; return (int)raw3(SYS_munmap, (long)a, n, 0); }
	}
	if (!real) real = (fn_t)dlsym(RTLD_NEXT, "munmap");
	return real(a, n);
}
namespace sim { std::string live_map_desc() { return live_maps.empty() ? std::string() : std::to_string(live_maps.size()) + " file mapping(s), e.g. of " + std::to_string(live_maps.begin()->second.first) + " bytes at " + live_maps.begin()->second.second; } }
EXPORT void *mmap64(void *a, size_t n, int prot, int fl, int fd, off64_t off) {
	if (fd < 0 || !SIMFD(fd)) { long r = raw6(SYS_mmap, (long)a, n, prot, fl, fd, off); if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; } return (void *)r; }
	Enter e; tick("mmap");
	File *f = fd_get(fd); if (!f || f->kind != File::REG) { errno = EACCES; return MAP_FAILED; }
	if (FAULT("mmap_err")) { errno = ENOMEM; return MAP_FAILED; }
	long r = raw6(SYS_mmap, 0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; }
	RegFile *g = (RegFile *)f;
	size_t sz = g->n->data.size();
	if ((size_t)off < sz) memcpy((void *)r, g->n->data.data() + off, std::min(n, sz - (size_t)off));
	live_maps[(uintptr_t)r] = {(n + 4095) & ~4095ul, "offset " + std::to_string((long long)off)};
	progress();
	return (void *)r;
}
EXPORT void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t off) { return mmap64(a, n, prot, fl, fd, off); }

// directories
struct VDir { uint32_t magic; std::vector<std::string> names; std::vector<Inode *> nodes; size_t pos; int fd; struct dirent64 de; };
static std::set<void *> vdirs;
EXPORT DIR *opendir(const char *path) {
	typedef DIR *(*fn_t)(const char *); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "opendir");
	if (!sim_on() || !vp(path)) return real(path);
	Enter e; tick("opendir"); slow_disk();
	if (FAULT("open_emfile")) { errno = EMFILE; return nullptr; }
	Inode *n = vfs_lookup(path); if (!n) return nullptr;
	if (!n->dir) { errno = ENOTDIR; return nullptr; }
	int fd = fd_alloc(new ::sim::File(::sim::File::DIRF)); if (fd < 0) return nullptr;
	VDir *d = new VDir; d->pos = 0; d->fd = fd;
	d->names.push_back("."); d->nodes.push_back(n); d->names.push_back(".."); d->nodes.push_back(n);
	for (auto &k : n->ch) { d->names.push_back(k.first); d->nodes.push_back(k.second); }
	vdirs.insert(d);
	return (DIR *)d;
}
EXPORT struct dirent64 *readdir64(DIR *dp) {
	typedef struct dirent64 *(*fn_t)(DIR *); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "readdir64");
	if (!sim_on() || !vdirs.count(dp)) return real(dp);
	Enter e; tick("readdir");
	VDir *d = (VDir *)dp;
	if (FAULT("readdir_err")) { errno = EIO; return nullptr; }
	if (d->pos >= d->names.size()) return nullptr;
	memset(&d->de, 0, sizeof d->de);
	strncpy(d->de.d_name, d->names[d->pos].c_str(), sizeof d->de.d_name - 1);
	d->de.d_ino = d->nodes[d->pos]->ino; d->pos++;
	return &d->de;
}
EXPORT struct dirent *readdir(DIR *dp) { return (struct dirent *)readdir64(dp); }
EXPORT int closedir(DIR *dp) {
	typedef int (*fn_t)(DIR *); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "closedir");
	if (!sim_on() || !vdirs.count(dp)) return real(dp);
	Enter e; vdirs.erase(dp); fd_close(((VDir *)dp)->fd); delete (VDir *)dp; return 0;
}
// randomness device: force the libraries onto deterministic fall-backs
EXPORT FILE *fopen64(const char *path, const char *mode) {
	typedef FILE *(*fn_t)(const char *, const char *); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "fopen64");
	if (active && (strstr(path, "/dev/urandom") || strstr(path, "/dev/random") || strstr(path, "/proc/self/stat"))) { errno = ENOENT; return nullptr; }
	if (sim_on() && vp(path)) {
		// read-only snapshot through a memory stream
		Enter e; Inode *n = vfs_lookup(path); if (!n) return nullptr;
		FILE *f = tmpfile(); fwrite(n->data.data(), 1, n->data.size(), f); rewind(f); return f;
	}
	return real(path, mode);
}
EXPORT FILE *fopen(const char *path, const char *mode) { return fopen64(path, mode); }

// ---- glib synchronisation called from the code under test: extra scheduling points ---------------------
#define GYIELD(name, decl, args) EXPORT void name decl { typedef void (*fn_t) decl; static fn_t real = (fn_t)dlsym(RTLD_NEXT, #name); if (sim_on()) { Enter e; sched_point(#name); } real args; }
struct _GMutexX; 
GYIELD(g_mutex_lock, (void *m), (m))
EXPORT void g_mutex_unlock(void *m) { typedef void (*fn_t)(void *); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "g_mutex_unlock"); real(m); if (sim_on()) { Enter e; sched_point("g_mutex_unlock"); } }
EXPORT void g_async_queue_push(void *q, void *d) { typedef void (*fn_t)(void *, void *); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "g_async_queue_push"); real(q, d); if (sim_on()) { Enter e; sched_point("g_async_queue_push"); } }
EXPORT void *g_async_queue_try_pop(void *q) { typedef void *(*fn_t)(void *); static fn_t real = (fn_t)dlsym(RTLD_NEXT, "g_async_queue_try_pop"); if (sim_on()) { Enter e; sched_point("g_async_queue_try_pop"); } return real(q); }
