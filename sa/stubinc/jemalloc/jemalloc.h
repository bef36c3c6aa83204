/* declaration-only stand-in for jemalloc.h: lets the analysis compile pool_jemalloc.c */
#pragma once
#include <limits.h>
#include <stdbool.h>
#include <stddef.h>
#include <strings.h>
#define MALLCTL_ARENAS_ALL 4096
#define MALLOCX_LG_ALIGN(la) ((int)(la))
#define MALLOCX_ALIGN(a) \
    ((int)(((size_t)(a) < (size_t)INT_MAX) ? ffs((int)(a)) - 1 : ffs((int)(((size_t)(a)) >> 32)) + 31))
#define MALLOCX_ZERO ((int)0x40)
#define MALLOCX_TCACHE_NONE ((int)((0 + 1) << 8))
#define MALLOCX_ARENA(a) ((((int)(a)) + 1) << 20)
typedef struct extent_hooks_s extent_hooks_t;
typedef void *(extent_alloc_t)(extent_hooks_t *, void *, size_t, size_t, bool *, bool *, unsigned);
typedef bool(extent_dalloc_t)(extent_hooks_t *, void *, size_t, bool, unsigned);
typedef void(extent_destroy_t)(extent_hooks_t *, void *, size_t, bool, unsigned);
typedef bool(extent_commit_t)(extent_hooks_t *, void *, size_t, size_t, size_t, unsigned);
typedef bool(extent_decommit_t)(extent_hooks_t *, void *, size_t, size_t, size_t, unsigned);
typedef bool(extent_purge_t)(extent_hooks_t *, void *, size_t, size_t, size_t, unsigned);
typedef bool(extent_split_t)(extent_hooks_t *, void *, size_t, size_t, size_t, bool, unsigned);
typedef bool(extent_merge_t)(extent_hooks_t *, void *, size_t, void *, size_t, bool, unsigned);
struct extent_hooks_s {
    extent_alloc_t *alloc;
    extent_dalloc_t *dalloc;
    extent_destroy_t *destroy;
    extent_commit_t *commit;
    extent_decommit_t *decommit;
    extent_purge_t *purge_lazy;
    extent_purge_t *purge_forced;
    extent_split_t *split;
    extent_merge_t *merge;
};
void *je_mallocx(size_t size, int flags);
void *je_rallocx(void *ptr, size_t size, int flags);
void je_dallocx(void *ptr, int flags);
size_t je_malloc_usable_size(void *ptr);
int je_mallctl(const char *name, void *oldp, size_t *oldlenp, void *newp, size_t newlen);
