/* allocation layer of the concrete runner: counts live blocks and can make the k-th allocation fail */
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef strdup
long cdv_fail_at = 0, cdv_count = 0, cdv_live = 0, cdv_failed = 0, cdv_limit = 0;
static int fails(size_t n)
{
    cdv_count++;
    if (cdv_limit && n > (size_t) cdv_limit) { cdv_failed++; return 1; }
    if (cdv_fail_at && cdv_count == cdv_fail_at) { cdv_failed++; return 1; }
    return 0;
}
void *cdv_malloc(size_t n) { void *p; if (fails(n)) return NULL; p = malloc(n); if (p) { cdv_live++; memset(p, 0x5a, n); } return p; }
void *cdv_calloc(size_t a, size_t b) { void *p; if (fails(a * b)) return NULL; p = calloc(a, b); if (p) cdv_live++; return p; }
void *cdv_realloc(void *q, size_t n) { void *p; if (fails(n)) return NULL; p = realloc(q, n); if (p && !q) cdv_live++; return p; }
void cdv_free(void *p) { if (p) cdv_live--; free(p); }
char *cdv_strdup(const char *s) { char *p = cdv_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
size_t cdv_size(void *p) { return p ? malloc_usable_size(p) : 0; }
/* random source of the concrete runner: cdv_rlist[0..cdv_rlen) first, then a fixed generator */
int cdv_rlist[4096]; int cdv_rlen = 0, cdv_rpos = 0; unsigned long cdv_rstate = 1; long cdv_rcount = 0, cdv_rlimit = 0;
int cdv_rand(void)
{
    cdv_rcount++;
    if (cdv_rlimit && cdv_rcount > cdv_rlimit) abort();
    if (cdv_rpos < cdv_rlen) return cdv_rlist[cdv_rpos++];
    cdv_rstate = cdv_rstate * 6364136223846793005UL + 1442695040888963407UL;
    return (int) ((cdv_rstate >> 33) & 0x7fffffff);
}
