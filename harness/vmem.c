#include <string.h>
#include "vmem.h"
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
void *__real_malloc(size_t); void __real_free(void *);
#define RZ 40
#define MAGIC 0x51ab1e55c0ffee01ULL
typedef struct hdr { uint64_t magic; size_t size; struct hdr *next, *pnext; int freed; int lib; unsigned char rz[RZ]; } hdr;
static hdr *all; static long badfree; static __thread int libmode = 1; static long nalloc; static __thread long failat, fired; static __thread int failon;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
/* open-addressing set of our block addresses, so that foreign pointers are recognised safely */
static uintptr_t *tab; static size_t cap, cnt;
static void tab_put(uintptr_t p){
  if(cnt*2 >= cap){ size_t oc=cap; uintptr_t *ot=tab; cap = cap? cap*2 : 1<<12; tab=(uintptr_t*)__real_malloc(cap*sizeof *tab); memset(tab,0,cap*sizeof *tab); cnt=0;
    for(size_t i=0;i<oc;i++) if(ot[i]) tab_put(ot[i]); if(ot) __real_free(ot); }
  size_t i=(p>>4)*0x9E3779B97F4A7C15ULL % cap; while(tab[i]) { if(tab[i]==p) return; i=(i+1)%cap; } tab[i]=p; cnt++; }
static int tab_has(uintptr_t p){ if(!cap) return 0; size_t i=(p>>4)*0x9E3779B97F4A7C15ULL % cap; while(tab[i]){ if(tab[i]==p) return 1; i=(i+1)%cap; } return 0; }
/* with VMEM_REUSE set a released block serves the next request of its size, so that addresses come back */
static hdr *pool[4096]; static int reuse=-1; static long late;
static hdr *again(size_t n){ hdr **q=&pool[n%4096]; for(;*q;q=&(*q)->pnext) if((*q)->size==n){ hdr *h=*q; *q=h->pnext; return h; } return NULL; }
static void *alloc(size_t n, int fill){
  if(failat&&libmode){ if(--failat==0||failat<0){ fired++; failat=failon?-1:0; return NULL; } }
  pthread_mutex_lock(&mu);
  nalloc++;
  if(reuse<0) reuse=getenv("VMEM_REUSE")!=NULL;
  if(reuse){ hdr *h=again(n); if(h){
    for(size_t i=0;i<n;i++) if(((unsigned char*)(h+1))[i]!=0xDD){ late++; break; }
    h->freed=0; h->lib=libmode; memset((char*)(h+1),fill,n); pthread_mutex_unlock(&mu); return h+1; } }
  hdr *h=(hdr*)__real_malloc(sizeof(hdr)+n+RZ);
  if(!h){ pthread_mutex_unlock(&mu); return NULL; }
  h->magic=MAGIC; h->size=n; h->freed=0; h->lib=libmode; memset(h->rz,0xBD,RZ); memset((char*)(h+1),fill,n); memset((char*)(h+1)+n,0xBD,RZ);
  h->next=all; all=h; tab_put((uintptr_t)(h+1));
  pthread_mutex_unlock(&mu);
  return h+1; }
void *__wrap_malloc(size_t n){ return alloc(n,0xA5); }
void *__wrap_calloc(size_t a,size_t b){ return alloc(a*b,0); }
void prt_freed(void*,size_t) __attribute__((weak));
void __wrap_free(void *p){
  if(!p) return;
  if(prt_freed&&tab_has((uintptr_t)p)) prt_freed(p,((hdr*)p-1)->size);
  pthread_mutex_lock(&mu);
  if(!tab_has((uintptr_t)p)){ pthread_mutex_unlock(&mu); __real_free(p); return; } /* from libc */
  hdr *h=(hdr*)p-1; if(h->freed) badfree++; else { h->freed=1; memset(p,0xDD,h->size); if(reuse>0){ h->pnext=pool[h->size%4096]; pool[h->size%4096]=h; } }
  pthread_mutex_unlock(&mu); }
void *__wrap_realloc(void *p,size_t n){
  if(!p) return alloc(n,0xA5);
  void *q=alloc(n,0xA5); if(!q) return NULL;
  if(tab_has((uintptr_t)p)){ hdr *h=(hdr*)p-1; memcpy(q,p,h->size<n?h->size:n); } else memcpy(q,p,n);
  __wrap_free(p); return q; }
void vmem_mode(int lib){ libmode=lib; }
void vmem_fail_at(long n,int on){ failat=n; failon=on; fired=0; }
long vmem_denied(void){ failat=0; return fired; }
int vmem_owned(const void *p){ return tab_has((uintptr_t)p) && !((const hdr*)p-1)->freed; }
void vmem_get(vmem_stats_t *s){
  memset(s,0,sizeof *s); s->badfree=badfree; s->overrun=late; s->nalloc=nalloc;
  for(hdr *h=all;h;h=h->next){ const unsigned char *e=(unsigned char*)(h+1)+h->size; int bad=0;
    for(int i=0;i<RZ;i++) if(h->rz[i]!=0xBD||e[i]!=0xBD) bad=1;
    if(h->freed) for(size_t i=0;i<h->size;i++) if(((unsigned char*)(h+1))[i]!=0xDD) bad=1;
    s->overrun+=bad; if(!h->freed&&h->lib){ s->live++; s->bytes+=(long)h->size; } } }
