#ifndef PRT_H
#define PRT_H
#include <stddef.h>
typedef struct { unsigned long lo, hi; int w; unsigned locks; int epoch; } prt_iv;   /* bytes lo..hi */
extern void (*prt_region)(int nthreads, int epoch, prt_iv **iv, size_t *n);
extern void (*prt_switch)(int t);              /* another thread of control continues (-1: the main one) */
void prt_config(int threads, unsigned long seed, int policy);
void prt_run(int n, void (*fn)(void *), void **arg, int team);   /* team: an OpenMP team, otherwise separate threads */
void prt_access(const void *p, size_t n, int w);
#endif
