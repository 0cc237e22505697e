// Memory accounting: every block the code under test allocates (malloc as seen by the AddressSanitizer runtime) is tracked,
// so that a run can check after a clean exit that nothing allocated while serving requests is left.
#include "world.h"
#include "raw.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
void __sanitizer_symbolize_pc(void *, const char *, char *, size_t);
size_t __asan_get_alloc_stack(void *, void **, size_t, int *);
}
namespace sim {
namespace {
struct Ent { uintptr_t p; uint32_t size; uint32_t seq; };
const size_t N = 1u << 20;
Ent *tab; size_t used; uint32_t seq, mark; bool on; int lk;
struct L { L() { while (__atomic_exchange_n(&lk, 1, __ATOMIC_ACQUIRE)) {} } ~L() { __atomic_store_n(&lk, 0, __ATOMIC_RELEASE); } };
inline size_t slot(uintptr_t p) { return (p * 0x9e3779b97f4a7c15ull >> 20) & (N - 1); }
void mh(const volatile void *v, size_t n) {
	if (!on || in_sim || !v) return;
	L l; uintptr_t p = (uintptr_t)v; if (used > N / 2) return;
	size_t i = slot(p); while (tab[i].p > 1 && tab[i].p != p) i = (i + 1) & (N - 1);
	if (tab[i].p == 0) ++used;
	tab[i] = {p, (uint32_t)n, ++seq};
}
void fh(const volatile void *v) {
	if (!on || !v) return;
	L l; uintptr_t p = (uintptr_t)v;
	for (size_t i = slot(p); tab[i].p; i = (i + 1) & (N - 1)) if (tab[i].p == p) { tab[i].p = 1; return; }
}
}
std::string live_map_desc();
void leak_init() {
	tab = (Ent *)raw6(SYS_mmap, 0, N * sizeof(Ent), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	__sanitizer_install_malloc_and_free_hooks(mh, fh);
}
void leak_start() { on = true; }
void leak_mark() { if (!mark) mark = seq; }
std::vector<std::string> leak_ignore;
// caches which the libraries fill once and keep until the process ends
static const char *lib_once[] = {"g_strerror", "g_private_new", "g_static_mutex_get_mutex_impl", "g_static_private", "g_get_filename_charsets", "glib_gettext", "g_dgettext", "g_thread_pool_free",
	"g_rw_lock_", "g_quark_", "g_intern_", "BIO_meth_new", "OPENSSL_init", "gnutls_global", "setlocale", "g_get_charset", "g_thread_new", "g_thread_self", "localtime", "tzset", "getaddrinfo", "g_convert"};
static std::string where(uintptr_t p, bool names, bool &ign) {
	void *st[12]; int tid; size_t n = __asan_get_alloc_stack((void *)p, st, 12, &tid); std::string s; int k = 0; bool first = true; ign = false;
	for (size_t i = 0; i < n; ++i) {
		Dl_info d; memset(&d, 0, sizeof d); if (!dladdr(st[i], &d)) continue;
		const char *f = d.dli_fname ? strrchr(d.dli_fname, '/') : nullptr;
		std::string lib = f ? f + 1 : d.dli_fname ? d.dli_fname : "?", nm = d.dli_sname ? d.dli_sname : "";
		if (lib.compare(0, 7, "libasan") == 0 || lib.compare(0, 5, "libc.") == 0) continue;
		for (const char *o : lib_once) if (nm.compare(0, strlen(o), o) == 0) ign = true;
		if (nm.compare(0, 7, "CRYPTO_") == 0) continue;
		// OpenSSL's library context: only objects of libssl itself belong to a connection
		if (first && lib.compare(0, 9, "libcrypto") == 0) ign = true;
		first = false;
		if (k < 6) {
			if (names) { char b[300]; b[0] = 0; __sanitizer_symbolize_pc(st[i], "%f", b, sizeof b); if (b[0]) nm = b; }
			s += nm.size() ? nm : lib.substr(0, lib.find('.')); s += "<"; ++k;
		}
	}
	if (first) ign = true;
	for (auto &o : leak_ignore) if (s.find(o) != std::string::npos) ign = true;
	return s;
}
void leak_check() {
	on = false;
	std::string m = live_map_desc(); if (m.size()) violation("P09", "map-leak", "after a clean exit there are still %s", m.c_str());
	if (!mark) return;
	int c = 0; size_t bytes = 0; uintptr_t ex = 0; uint32_t exseq = 0;
	std::map<std::string, int> sites;
	for (size_t i = 0; i < N; ++i) if (tab[i].p > 1 && tab[i].seq > mark) {
		bool ign; std::string w = where(tab[i].p, trace_on, ign); if (trace_on) tr("left: %u bytes %s%s", tab[i].size, w.c_str(), ign ? " (ignored)" : ""); if (ign) continue;
		++c; bytes += tab[i].size; if (!ex || tab[i].seq < exseq) { ex = tab[i].p; exseq = tab[i].seq; }
	}
	if (!c) return;
	bool ign; std::string w = where(ex, true, ign);
	violation(cfg.scenario == "angel" ? "P22,P09" : "P09", "memory-leak", "%d block(s), %zu bytes, allocated while serving requests are left after a clean exit; the first: %s", c, bytes, w.c_str());
}
}
