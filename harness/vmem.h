/* Checking allocator: the library under test and the harness are linked with
 * --wrap=malloc,calloc,realloc,free. Every block gets red zones and a header,
 * freed blocks are filled with junk and never reused, so that leaks, double
 * frees, heap overruns and reads of freed or uninitialised memory show up in
 * the recorded trace. */
#ifndef VMEM_H
#define VMEM_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { long live; long bytes; long badfree; long overrun; long nalloc; } vmem_stats_t;
void vmem_get(vmem_stats_t *s);       /* scans live and freed blocks */
void vmem_mode(int lib);              /* 1: allocations count as the library's */
int  vmem_owned(const void *p);       /* 1: p is a live block of the library */
void vmem_fail_at(long n,int on);     /* the n-th request of the library from now (and all later ones) is denied */
long vmem_denied(void);               /* ends that; how many were denied */
#ifdef __cplusplus
}
#endif
#endif
#ifdef HX_PRT   /* what the harness does itself is not recorded */
#include <string.h>
void *__real_memcpy(void*,const void*,size_t); void *__real_memset(void*,int,size_t);
#define memcpy __real_memcpy
#define memset __real_memset
#endif
