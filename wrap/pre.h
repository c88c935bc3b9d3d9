/* force-included for the concrete build: route allocation through wrap/alloc.c */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
void *cdv_malloc(size_t); void *cdv_calloc(size_t, size_t); void *cdv_realloc(void *, size_t); void cdv_free(void *); char *cdv_strdup(const char *);
#undef strdup
#define malloc cdv_malloc
#define calloc cdv_calloc
#define realloc cdv_realloc
#define free cdv_free
#define strdup cdv_strdup
int cdv_rand(void);
#define rand cdv_rand
