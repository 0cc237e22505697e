/* Per-run choice between the real pool allocator and mempool.c's own MEMPOOL_MALLOC variant
 * (the latter lets AddressSanitizer see every buffer). Both are the repository's code. */
#include <lighttpd/mempool.h>
int sim_mempool_malloc = 0;
gsize pool_li_mempool_align_page_size(gsize); gsize sys_li_mempool_align_page_size(gsize);
liMempoolPtr pool_li_mempool_alloc(gsize); liMempoolPtr sys_li_mempool_alloc(gsize);
void pool_li_mempool_free(liMempoolPtr, gsize); void sys_li_mempool_free(liMempoolPtr, gsize);
void pool_li_mempool_cleanup(void); void sys_li_mempool_cleanup(void);
gsize li_mempool_align_page_size(gsize n) { return sim_mempool_malloc ? sys_li_mempool_align_page_size(n) : pool_li_mempool_align_page_size(n); }
liMempoolPtr li_mempool_alloc(gsize n) { return sim_mempool_malloc ? sys_li_mempool_alloc(n) : pool_li_mempool_alloc(n); }
void li_mempool_free(liMempoolPtr p, gsize n) { if (sim_mempool_malloc) sys_li_mempool_free(p, n); else pool_li_mempool_free(p, n); }
void li_mempool_cleanup(void) { if (sim_mempool_malloc) sys_li_mempool_cleanup(); else pool_li_mempool_cleanup(); }
