/* A runtime for code compiled with -fopenmp -fsanitize=thread, in place of
 * libgomp and libtsan: the threads of a parallel region are coroutines that are
 * switched at memory accesses by a seeded policy, so that every schedule is
 * repeatable, and every access is recorded with the locks held and the number
 * of barriers passed. What the threads share is reported per region. */
#define _GNU_SOURCE
#include "prt.h"
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
#include <stdbool.h>
#include <sys/mman.h>
#include <time.h>
void *__real_malloc(size_t); void *__real_realloc(void*,size_t); void __real_free(void*);
void *__real_memcpy(void*,const void*,size_t); void *__real_memmove(void*,const void*,size_t); void *__real_memset(void*,int,size_t);
void __real_qsort(void*,size_t,size_t,int(*)(const void*,const void*));
#define MAXT 16
#define STK (64UL<<20)
typedef struct { ucontext_t c; char *stk; int state; /*0 none 1 ready 2 barrier 3 lock 4 done*/ void *want; unsigned locks; int epoch; prt_iv *iv; size_t n, cap; long single; long loop; void (*fn)(void*); void *arg; int nest; } thr;
static thr T[MAXT]; static int nt, cur=-1, isteam; static ucontext_t mainc;
static int cfg_t=1, cfg_p=0; static uint64_t rs=88172645463325252ULL;
void (*prt_region)(int,int,prt_iv**,size_t*); void (*prt_switch)(int);
static uint64_t rnd(void){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; }
void prt_config(int t,unsigned long seed,int p){ cfg_t=t<1?1:t>MAXT?MAXT:t; cfg_p=p; rs=(seed+1)*0x9E3779B97F4A7C15ULL|1; for(int i=0;i<8;i++) rnd(); }
/* locks */
static void *lockp[32]; static int lockown[32]; static int nlock=1;      /* lock 0: atomic operations */
static int lockid(void *p){ for(int i=1;i<nlock;i++) if(lockp[i]==p) return i; if(nlock<31){ lockp[nlock]=p; lockown[nlock]=-1; return nlock++; } return 31; }
static void go(int t){ int me=cur; cur=t; if(prt_switch) prt_switch(t); if(me==t) return; if(me<0) swapcontext(&mainc,&T[t].c); else swapcontext(&T[me].c,&T[t].c); }
static int pick(int other){ int r[MAXT],k=0; for(int i=0;i<nt;i++) if(T[i].state==1&&!(other&&i==cur)) r[k++]=i; if(!k) return -1;
  if(cfg_p==0) return r[0]; if(cfg_p==1) return r[k-1]; if(cfg_p==4){ for(int i=0;i<k;i++) if(r[i]>cur) return r[i]; return r[0]; } return r[rnd()%(uint64_t)k]; }
static void maybe(void){ if(cur<0||nt<2) return; int sw=0; switch(cfg_p){ case 2: sw=(rnd()&1)==0; break; case 3: sw=(rnd()&15)==0; break; case 4: sw=1; break; case 5: sw=(rnd()%97)==0; break; default: break; }
  if(sw){ int t=pick(0); if(t>=0&&t!=cur) go(t); } }
static void block(int st){ T[cur].state=st; int t=pick(1); if(t<0){ abort(); } go(t); }
static void release_barrier(void){ for(int i=0;i<nt;i++) if(T[i].state!=2&&T[i].state!=4) return; for(int i=0;i<nt;i++) if(T[i].state==2){ T[i].state=1; T[i].epoch++; } }
static void barrier(void){ if(cur<0||!isteam||T[cur].nest) return; T[cur].state=2; release_barrier(); if(T[cur].state==1){ maybe(); return; } int t=pick(1); if(t<0) abort(); go(t); }
static void lock(void *p){ if(cur<0) return; int id=lockid(p); maybe(); while(lockown[id]>=0&&lockown[id]!=cur){ T[cur].want=p; block(3); } lockown[id]=cur; T[cur].locks|=1u<<id; }
static void unlock(void *p){ if(cur<0) return; int id=lockid(p); lockown[id]=-1; T[cur].locks&=~(1u<<id); for(int i=0;i<nt;i++) if(T[i].state==3&&T[i].want==p) T[i].state=1; maybe(); }
static void record(uintptr_t a,size_t n,int w,unsigned locks){
  thr *t=&T[cur]; if(!n) return; if(a>=(uintptr_t)t->stk&&a<(uintptr_t)t->stk+STK) return;
  uintptr_t b=a+n-1;
  for(size_t k=t->n, i=0;k>0&&i<6;k--,i++){ prt_iv *v=&t->iv[k-1]; if(v->epoch!=t->epoch) break; if(v->w==w&&v->locks==locks&&a<=v->hi+1&&v->lo<=b+1){ if(a<v->lo) v->lo=a; if(b>v->hi) v->hi=b; return; } }
  if(t->n==t->cap){ t->cap=t->cap?t->cap*2:256; t->iv=(prt_iv*)__real_realloc(t->iv,t->cap*sizeof *t->iv); }
  prt_iv v={a,b,w,locks,t->epoch}; t->iv[t->n++]=v; }
void prt_access(const void *p,size_t n,int w){ if(cur<0||nt<2) return; maybe(); record((uintptr_t)p,n,w,T[cur].locks); }
static void prt_atomic(const void *p,size_t n){ if(cur<0||nt<2) return; maybe(); record((uintptr_t)p,n,1,T[cur].locks|1u); }
static void entry(void){ T[cur].fn(T[cur].arg); T[cur].state=4; if(isteam) release_barrier(); int t=pick(1); if(t<0){ int me=cur; cur=-1; if(prt_switch) prt_switch(-1); (void)me; setcontext(&mainc); } else { cur=t; if(prt_switch) prt_switch(t); setcontext(&T[t].c); } }
static int ivcmp(const void *a,const void *b){ const prt_iv *x=a,*y=b; if(x->epoch!=y->epoch) return x->epoch<y->epoch?-1:1; if(x->w!=y->w) return x->w-y->w; if(x->locks!=y->locks) return x->locks<y->locks?-1:1; return x->lo<y->lo?-1:x->lo>y->lo; }
static void report(void){
  prt_iv *iv[MAXT]; size_t n[MAXT]; int maxe=0;
  for(int i=0;i<nt;i++){ thr *t=&T[i]; if(t->n) __real_qsort(t->iv,t->n,sizeof *t->iv,ivcmp); size_t k=0;
    for(size_t j=0;j<t->n;j++){ prt_iv *v=&t->iv[j]; if(k&&t->iv[k-1].epoch==v->epoch&&t->iv[k-1].w==v->w&&t->iv[k-1].locks==v->locks&&v->lo<=t->iv[k-1].hi+1){ if(v->hi>t->iv[k-1].hi) t->iv[k-1].hi=v->hi; } else t->iv[k++]=*v; }
    t->n=k; if(k&&t->iv[k-1].epoch>maxe) maxe=t->iv[k-1].epoch; }
  for(int e=0;e<=maxe;e++){
    for(int i=0;i<nt;i++){ iv[i]=(prt_iv*)__real_malloc((T[i].n+1)*sizeof(prt_iv)); n[i]=0;
      /* what no other thread touches can not conflict */
      for(size_t j=0;j<T[i].n;j++){ prt_iv v=T[i].iv[j]; if(v.epoch!=e) continue; int sh=0; for(int q=0;q<nt&&!sh;q++) if(q!=i) for(size_t z=0;z<T[q].n;z++){ prt_iv *u=&T[q].iv[z]; if(u->epoch==e&&u->lo<=v.hi&&v.lo<=u->hi){ sh=1; break; } } if(sh) iv[i][n[i]++]=v; } }
    if(prt_region) prt_region(nt,e,iv,n);
    for(int i=0;i<nt;i++) __real_free(iv[i]); } }
void prt_run(int n,void (*fn)(void*),void **arg,int team){
  if(n>MAXT) n=MAXT;
  nt=n; isteam=team; for(int i=0;i<n;i++){ thr *t=&T[i]; if(!t->stk) t->stk=(char*)mmap(NULL,STK,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    t->state=1; t->locks=0; t->epoch=0; t->n=0; t->single=0; t->loop=0; t->nest=0; t->fn=fn; t->arg=arg[i]; getcontext(&t->c); t->c.uc_stack.ss_sp=t->stk; t->c.uc_stack.ss_size=STK; t->c.uc_link=NULL; makecontext(&t->c,entry,0); }
  for(int i=0;i<nlock;i++) lockown[i]=-1;
  int t=pick(0); go(t); cur=-1; int k=nt; (void)k; report(); nt=0; }
/* ------------------------------------------------------------------ OpenMP */
/* shared state of work sharing constructs, by the number of the construct in the thread */
#define NW 64
static struct { long id; long next,end,inc,chunk; int taken; } W[NW];
static int reqt;
static long SG[NW];
static void team_reset(void){ for(int i=0;i<NW;i++) W[i].id=SG[i]=-1; }
void GOMP_parallel(void (*fn)(void*),void *data,unsigned n,unsigned flags){ (void)flags;
  if(cur>=0){ T[cur].nest++; fn(data); T[cur].nest--; return; }
  int k=n?(int)n:(reqt?reqt:cfg_t); if(k>MAXT) k=MAXT; void *a[MAXT]; for(int i=0;i<k;i++) a[i]=data; team_reset(); prt_run(k,fn,a,1); }
int omp_get_thread_num(void){ return cur<0||!isteam||T[cur].nest?0:cur; }
int omp_get_num_threads(void){ return cur<0||!isteam||T[cur].nest?1:nt; }
int omp_get_max_threads(void){ return reqt?reqt:cfg_t; }
int omp_get_num_procs(void){ return 8; } int omp_in_parallel(void){ return cur>=0&&isteam&&nt>1; } int omp_get_level(void){ return cur>=0&&isteam; } int omp_get_active_level(void){ return omp_in_parallel(); }
void omp_set_num_threads(int n){ reqt=n; } void omp_set_dynamic(int d){(void)d;} int omp_get_dynamic(void){return 0;} void omp_set_nested(int n){(void)n;} int omp_get_nested(void){return 0;} int omp_get_thread_limit(void){return MAXT;} int omp_get_max_active_levels(void){return 1;} void omp_set_max_active_levels(int n){(void)n;}
double omp_get_wtime(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (double)t.tv_sec+(double)t.tv_nsec/1e9; }
void GOMP_barrier(void){ barrier(); } bool GOMP_barrier_cancel(void){ barrier(); return false; }
static char critical_, atomic_, ordered_;
void GOMP_critical_start(void){ lock(&critical_); } void GOMP_critical_end(void){ unlock(&critical_); }
void GOMP_critical_name_start(void **p){ lock(p); } void GOMP_critical_name_end(void **p){ unlock(p); }
void GOMP_atomic_start(void){ lock(&atomic_); } void GOMP_atomic_end(void){ unlock(&atomic_); }
void GOMP_ordered_start(void){ lock(&ordered_); } void GOMP_ordered_end(void){ unlock(&ordered_); }
void omp_init_lock(void *p){(void)p;} void omp_destroy_lock(void *p){(void)p;} void omp_set_lock(void *p){ lock(p); } void omp_unset_lock(void *p){ unlock(p); }
void omp_init_nest_lock(void *p){(void)p;} void omp_set_nest_lock(void *p){ lock(p); } void omp_unset_nest_lock(void *p){ unlock(p); }
bool GOMP_single_start(void){ if(cur<0||!isteam||T[cur].nest) return true; long id=T[cur].single++; int k=(int)(id%NW); if(SG[k]!=id){ SG[k]=id; return true; } return false; }
static int wslot(long *id){ *id=T[cur].loop; return (int)(*id%NW); }
static bool loop_next(long *a,long *b,int guided){ if(cur<0||!isteam||T[cur].nest) return false; long id=T[cur].loop-1; int s=(int)(id%NW); maybe(); long left=(W[s].end-W[s].next)/W[s].inc+(((W[s].end-W[s].next)%W[s].inc)!=0); if(W[s].inc>0?W[s].next>=W[s].end:W[s].next<=W[s].end) return false; long c=W[s].chunk; if(guided){ long q=left/nt; if(q>c) c=q; } if(c>left) c=left; if(c<1) c=1; *a=W[s].next; *b=W[s].next+c*W[s].inc; W[s].next=*b; return true; }
static void loop_init(long st,long en,long inc,long ch,int first){ (void)first; long id; int s=wslot(&id); if(W[s].id!=id){ W[s].id=id; W[s].next=st; W[s].end=en; W[s].inc=inc; W[s].chunk=ch<1?1:ch; } T[cur].loop++; }
/* outside a team the whole loop is one chunk */
static struct { long a,b; int left; } S1[MAXT+1];
static bool solo(void){ return cur<0||!isteam||T[cur].nest; }
static bool lstart(long st,long en,long inc,long ch,long *a,long *b,int g){ if(solo()){ if(inc>0?st>=en:st<=en) return false; *a=st; *b=en; return true; } loop_init(st,en,inc,ch,1); return loop_next(a,b,g); }
#define LOOP(K,G) bool GOMP_loop_##K##_start(long st,long en,long inc,long ch,long *a,long *b){ return lstart(st,en,inc,ch,a,b,G); } bool GOMP_loop_##K##_next(long *a,long *b){ return loop_next(a,b,G); } \
 bool GOMP_loop_ull_##K##_start(bool up,unsigned long st,unsigned long en,unsigned long inc,unsigned long ch,unsigned long *a,unsigned long *b){ (void)up; return lstart((long)st,(long)en,(long)inc,(long)ch,(long*)a,(long*)b,G); } bool GOMP_loop_ull_##K##_next(unsigned long *a,unsigned long *b){ return loop_next((long*)a,(long*)b,G); } \
 static struct { void (*fn)(void*); void *d; long st,en,inc,ch; } P_##K; static void pf_##K(void *x){ (void)x; loop_init(P_##K.st,P_##K.en,P_##K.inc,P_##K.ch,0); P_##K.fn(P_##K.d); } \
 void GOMP_parallel_loop_##K(void (*fn)(void*),void *d,unsigned n,long st,long en,long inc,long ch,unsigned fl){ (void)fl; P_##K.fn=fn; P_##K.d=d; P_##K.st=st; P_##K.en=en; P_##K.inc=inc; P_##K.ch=ch; \
   if(cur>=0){ /* nested: a team of one */ int sv=T[cur].nest; T[cur].nest=0; long l=T[cur].loop; int snt=nt; (void)snt; loop_init(st,en,inc,en>st?en-st:st-en,0); T[cur].nest=sv; fn(d); T[cur].loop=l; return; } \
   int k=n?(int)n:(reqt?reqt:cfg_t); if(k>MAXT) k=MAXT; void *ar[MAXT]={0}; team_reset(); prt_run(k,pf_##K,ar,1); }
LOOP(dynamic,0) LOOP(guided,1) LOOP(nonmonotonic_dynamic,0) LOOP(nonmonotonic_guided,1) LOOP(runtime,0) LOOP(nonmonotonic_runtime,0) LOOP(maybe_nonmonotonic_runtime,0) LOOP(static,0)
void GOMP_loop_end(void){ barrier(); } void GOMP_loop_end_nowait(void){} bool GOMP_loop_end_cancel(void){ barrier(); return false; }
unsigned GOMP_sections_start(unsigned n){ long a,b; if(solo()){ S1[MAXT].left=(int)n; S1[MAXT].a=1; return n?(unsigned)S1[MAXT].a++:0; } loop_init(1,(long)n+1,1,1,1); return loop_next(&a,&b,0)?(unsigned)a:0; }
unsigned GOMP_sections_next(void){ long a,b; if(solo()) return S1[MAXT].a<=S1[MAXT].left?(unsigned)S1[MAXT].a++:0; return loop_next(&a,&b,0)?(unsigned)a:0; }
void GOMP_sections_end(void){ barrier(); } void GOMP_sections_end_nowait(void){}
void GOMP_parallel_sections(void (*fn)(void*),void *d,unsigned n,unsigned cnt,unsigned fl){ GOMP_parallel_loop_dynamic(fn,d,n,1,(long)cnt+1,1,1,fl); }
void GOMP_task(void (*fn)(void*),void *data,void (*cpy)(void*,void*),long sz,long al,bool iff,unsigned fl,void **dep,int pr,void *det){ (void)al;(void)iff;(void)fl;(void)dep;(void)pr;(void)det; if(cpy){ char *b=(char*)__real_malloc((size_t)sz+64); char *q=(char*)(((uintptr_t)b+(uintptr_t)(al>0?al-1:0))&~(uintptr_t)(al>0?al-1:0)); cpy(q,data); fn(q); } else fn(data); }
void GOMP_taskwait(void){} void GOMP_taskyield(void){} void GOMP_taskgroup_start(void){} void GOMP_taskgroup_end(void){}
/* ------------------------------------------------------------------ instrumentation */
void __tsan_init(void){} void __tsan_func_entry(void *p){(void)p;} void __tsan_func_exit(void){}
#define RW(n) void __tsan_read##n(void *p){ prt_access(p,n,0); } void __tsan_write##n(void *p){ prt_access(p,n,1); } void __tsan_unaligned_read##n(void *p){ prt_access(p,n,0); } void __tsan_unaligned_write##n(void *p){ prt_access(p,n,1); } void __tsan_volatile_read##n(void *p){ prt_access(p,n,0); } void __tsan_volatile_write##n(void *p){ prt_access(p,n,1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p,size_t n){ prt_access(p,n,0); } void __tsan_write_range(void *p,size_t n){ prt_access(p,n,1); }
void __tsan_vptr_update(void **p,void *v){ (void)v; prt_access(p,8,1); } void __tsan_vptr_read(void **p){ prt_access(p,8,0); }
#define AT(b,ty) ty __tsan_atomic##b##_load(const volatile ty *p,int m){ (void)m; prt_atomic((void*)p,sizeof(ty)); return *p; } void __tsan_atomic##b##_store(volatile ty *p,ty v,int m){ (void)m; prt_atomic((void*)p,sizeof(ty)); *p=v; } \
 ty __tsan_atomic##b##_exchange(volatile ty *p,ty v,int m){ (void)m; prt_atomic((void*)p,sizeof(ty)); ty o=*p; *p=v; return o; } ty __tsan_atomic##b##_fetch_add(volatile ty *p,ty v,int m){ (void)m; prt_atomic((void*)p,sizeof(ty)); ty o=*p; *p=(ty)(o+v); return o; } ty __tsan_atomic##b##_fetch_sub(volatile ty *p,ty v,int m){ (void)m; prt_atomic((void*)p,sizeof(ty)); ty o=*p; *p=(ty)(o-v); return o; } \
 ty __tsan_atomic##b##_fetch_and(volatile ty *p,ty v,int m){ (void)m; prt_atomic((void*)p,sizeof(ty)); ty o=*p; *p=(ty)(o&v); return o; } ty __tsan_atomic##b##_fetch_or(volatile ty *p,ty v,int m){ (void)m; prt_atomic((void*)p,sizeof(ty)); ty o=*p; *p=(ty)(o|v); return o; } ty __tsan_atomic##b##_fetch_xor(volatile ty *p,ty v,int m){ (void)m; prt_atomic((void*)p,sizeof(ty)); ty o=*p; *p=(ty)(o^v); return o; } \
 bool __tsan_atomic##b##_compare_exchange_strong(volatile ty *p,ty *e,ty v,int m,int f){ (void)m;(void)f; prt_atomic((void*)p,sizeof(ty)); if(*p==*e){ *p=v; return true; } *e=*p; return false; } bool __tsan_atomic##b##_compare_exchange_weak(volatile ty *p,ty *e,ty v,int m,int f){ return __tsan_atomic##b##_compare_exchange_strong(p,e,v,m,f); } \
 ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p,ty e,ty v,int m,int f){ __tsan_atomic##b##_compare_exchange_strong(p,&e,v,m,f); return e; }
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)
void __tsan_atomic_thread_fence(int m){(void)m;} void __tsan_atomic_signal_fence(int m){(void)m;}
void *__wrap_memcpy(void *d,const void *s,size_t n){ if(cur>=0){ prt_access(s,n,0); prt_access(d,n,1); } return __real_memcpy(d,s,n); }
void *__wrap_memmove(void *d,const void *s,size_t n){ if(cur>=0){ prt_access(s,n,0); prt_access(d,n,1); } return __real_memmove(d,s,n); }
void *__wrap_memset(void *d,int c,size_t n){ if(cur>=0) prt_access(d,n,1); return __real_memset(d,c,n); }
void __wrap_qsort(void *b,size_t n,size_t s,int (*f)(const void*,const void*)){ if(cur>=0) prt_access(b,n*s,1); __real_qsort(b,n,s,f); }
void prt_freed(void *p,size_t n){ if(cur>=0&&n) prt_access(p,n,1); }
