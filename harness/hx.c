/* Scenario interpreter: reads scenarios on stdin, runs each in a forked child
 * against the real library and writes one JSON line per scenario on stdout:
 *   {"id":ID,"ev":[...events...],"end":"ok"|"crash","sig":N}
 * Doubles are written with 17 digits; the conversion to the integers of the
 * specification is done in lib/adapt.py. */
#define _GNU_SOURCE
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "hdbscan/hdbscan.h"
#include "hdbscan/constraint.h"
#include "hdbscan/logger.h"
#include "collections/linkedlist.h"
#include "collections/hashtable.h"
#include "collections/set.h"
#include "vmem.h"
#ifdef HX_CPP          /* the same scenarios through the C++ interface */
#include "hxx.h"
#define CXX 1
#else
#define CXX 0
#define xx_new(...) NULL
#define xx_run(...)
#define xx_rerun(...)
#define xx_mst(...)
#define xx_hier(...)
#define xx_prom(...)
#define xx_scores(...)
#define xx_clean(...)
#define xx_delete(...)
#define xx_end(...)
#define xx_inf(...) 0
#define xx_cmap(...) NULL
#define xx_cmap_size(...) 0
#define xx_cmap_at(...) 0
#define xx_cmap_free(...)
#define xx_minmax(...) NULL
#define xx_mkdm(...) NULL
#define xx_dm_put(...)
#define xx_dm_size(...) 0
#define xx_dm_at(...) 0
#define xx_dm_free(...)
#define xx_stats(...)
#define xx_analyse(...) 0
#define xx_sort(...) 0
#define xx_qsort(...)
#define xx_print(...)
#define xx_dnew(...) NULL
#define xx_dcores(...)
#define xx_ddel(...)
#define xx_gnew(...) NULL
#define xx_gdel(...)
#endif

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define POISON(p,n) __msan_poison(p,n)
#endif
#endif
#ifndef POISON
#define POISON(p,n) memset(p,0xEE,n)
#endif
/* ------------------------------------------------------------- output */
static int outfd=1;
/* what belongs to one thread of control of a scenario */
struct hxc { char *tp; char *ob; size_t on, oc; int first; long mq[4]; int sd; int hold; };
static struct hxc cx0={.first=1}; static __thread struct hxc *cx;
void *__real_malloc(size_t); void *__real_realloc(void*,size_t); void __real_free(void*);
static void raw(const char *f,...){ va_list a; va_start(a,f); char t[400]; int k=vsnprintf(t,sizeof t,f,a); va_end(a);
  if(k>=(int)sizeof t) k=sizeof t-1;
  if(cx->on+(size_t)k+1>cx->oc){ cx->oc=(cx->on+(size_t)k+1)*2; cx->ob=(char*)__real_realloc(cx->ob,cx->oc); } memcpy(cx->ob+cx->on,t,(size_t)k); cx->on+=(size_t)k; }
static void flushout(void){ if(cx->hold) return; size_t i=0; while(i<cx->on){ ssize_t k=write(outfd,cx->ob+i,cx->on-i); if(k<=0) break; i+=(size_t)k; } cx->on=0; }
static struct hxc rcx; static int evopen;      /* events that happen while another is being written */
static void ev(const char *e){ raw("%s{\"e\":\"%s\"",cx->first?"":",",e); cx->first=0; if(cx==&cx0) evopen=1; }
static void rflush(void){ if(!rcx.on) return; size_t n=rcx.on; if(cx->on+n+1>cx->oc){ cx->oc=(cx->on+n+1)*2; cx->ob=(char*)__real_realloc(cx->ob,cx->oc); } memcpy(cx->ob+cx->on,rcx.ob,n); if(cx->first) cx->ob[cx->on]=' '; cx->on+=n; cx->first=0; rcx.on=0; }
static void evend(void){ raw("}"); if(cx==&cx0){ evopen=0; rflush(); } flushout(); }
static void num(double x){ if(isnan(x)) raw("NaN"); else if(isinf(x)) raw(x>0?"Infinity":"-Infinity"); else raw("%.17g",x); }
static void kv(const char *k,long v){ raw(",\"%s\":%ld",k,v); }
static void kd(const char *k,double v){ raw(",\"%s\":",k); num(v); }
static void ks(const char *k,const char *v){ raw(",\"%s\":\"%s\"",k,v); }

/* ------------------------------------------------------------- scenario text */
static const char *tok(void){ while(*cx->tp==' ') cx->tp++; if(!*cx->tp||*cx->tp=='\n') return ""; char *s=cx->tp; while(*cx->tp&&*cx->tp!=' '&&*cx->tp!='\n') cx->tp++; if(*cx->tp) *cx->tp++=0; return s; }
static int more(void){ while(*cx->tp==' ') cx->tp++; return *cx->tp && *cx->tp!='\n'; }
static long I(void){ return strtol(tok(),NULL,0); }
static double D(void){ return strtod(tok(),NULL); }
#define IS(s) (!strcmp(w,s))

#define NS 32
static hdbscan *H[NS]; static hdbscan *Hst[NS];
static struct { void *p; long rows,cols; int rw; int type; size_t bytes; } DS[NS];
static hashtable *CM[NS], *DM[NS]; static label_t *LB[NS]; static clustering_stats ST[NS];
static ArrayList *SL[NS];
static int ompsum;

static int htype(char c){ switch(c){ case 'd':return H_DOUBLE; case 'f':return H_FLOAT; case 'i':return H_INT; case 'l':return H_LONG; case 's':return H_SHORT; default:return H_CHAR; } }
typedef int32_t (*cmpf)(const void*,const void*);
static cmpf cmpof(char c){ switch(c){ case 'd':return double_compare; case 'f':return float_compare; case 'i':return int_compare; case 'l':return long_compare; case 's':return short_compare; case 'p': return ptr_compare; default:return char_compare; } }
static size_t szof(char c){ switch(c){ case 'd':return 8; case 'f':return 4; case 'i':return 4; case 'l':return 8; case 's':return 2; case 'p':return 8; default:return 1; } }
static void put(char c,void *p,const char *t){ switch(c){ case 'd':*(double*)p=strtod(t,0);break; case 'f':*(float*)p=(float)strtod(t,0);break; case 'i':*(int*)p=(int)strtol(t,0,0);break; case 'l':*(long*)p=strtol(t,0,0);break; case 's':*(short*)p=(short)strtol(t,0,0);break; case 'p':*(long*)p=strtol(t,0,0);break; default:*(char*)p=(char)strtol(t,0,0); } }
static void show(char c,const void *p){ switch(c){ case 'd':num(*(double*)p);break; case 'f':num(*(float*)p);break; case 'i':raw("%d",*(int*)p);break; case 'l':case 'p':raw("%ld",*(long*)p);break; case 's':raw("%d",*(short*)p);break; default:raw("%d",*(signed char*)p); } }

static void op_data(void){
  int k=(int)I(); char t=*tok(); long rows=I(), cols=I(); int rw=(int)I(); long off=I();
  /* off: extra bytes placed before the data, to vary its alignment by whole elements */
  long n=rows*cols; size_t es=szof(t); vmem_mode(0);
  char *b=(char*)malloc((size_t)n*es+(size_t)off*es); vmem_mode(1);
  for(long i=0;i<n;i++) put(t,b+(size_t)(off+i)*es,tok());
  DS[k].p=b+(size_t)off*es; DS[k].rows=rows; DS[k].cols=cols; DS[k].rw=rw; DS[k].type=htype(t); DS[k].bytes=(size_t)n*es;
}
static void dump_hdb(int h,const char *mask){
  hdbscan *s=H[h]; long n=(long)s->numPoints;
  if(strchr(mask,'d')){ ev("dist"); kv("h",h); kv("n",n); raw(",\"d\":["); for(long i=0;i<n;i++){ raw(i?",[":"["); for(long j=0;j<n;j++){ if(j) raw(","); num((double)distance_get(&s->distanceFunction,(index_t)i,(index_t)j)); } raw("]"); } raw("]"); evend(); }
  if(strchr(mask,'c')){ ev("core"); kv("h",h); raw(",\"c\":["); for(long i=0;i<n;i++){ if(i) raw(","); num((double)s->distanceFunction.coreDistances[i]); } raw("]"); evend(); }
  if(strchr(mask,'m')){ ev("mst"); kv("h",h); UndirectedGraph *g=s->mst; raw(",\"nv\":%ld,\"m\":[",(long)g->numVertices);
    for(size_t i=0;i<g->edgeWeights->size;i++){ raw("%s[%ld,%ld,",i?",":"",(long)((index_t*)g->verticesA->data)[i],(long)((index_t*)g->verticesB->data)[i]); num((double)((distance_t*)g->edgeWeights->data)[i]); raw("]"); }
    raw("],\"sz\":[%ld,%ld,%ld]",(long)g->verticesA->size,(long)g->verticesB->size,(long)g->edgeWeights->size); evend(); }
  if(strchr(mask,'h')){ long L=(long)hashtable_size(s->hierarchy); ev("rows"); kv("h",h); kv("size",L); raw(",\"r\":[");
    for(int64_t k=0;k<L;k++){ hierarchy_entry *en=NULL; int r=hashtable_lookup(s->hierarchy,&k,&en); if(k) raw(","); if(!r){ raw("{\"w\":-1,\"l\":[]}"); continue; }
      raw("{\"w\":"); num((double)en->edgeWeight); raw(",\"l\":["); for(long i=0;i<n;i++) raw(i?",%ld":"%ld",(long)en->labels[i]); raw("]}"); } raw("]"); evend(); }
  if(strchr(mask,'t')){ ev("tree"); kv("h",h); raw(",\"t\":["); for(size_t i=0;i<s->clusters->size;i++){ cluster *c=((cluster**)s->clusters->data)[i]; if(i) raw(",");
      if(!c){ raw("{\"l\":0}"); continue; }
      raw("{\"l\":%ld,\"p\":%ld,\"b\":",(long)c->label,c->parent?(long)c->parent->label:0L); num((double)c->birthLevel); raw(",\"d\":"); num((double)c->deathLevel);
      raw(",\"n\":%ld,\"o\":%ld,\"s\":",(long)c->numPoints,(long)c->offset); num((double)c->stability); raw(",\"ps\":"); num((double)c->propagatedStability); raw(",\"ld\":"); num((double)c->propagatedLowestChildDeathLevel);
      raw(",\"nc\":%ld,\"pc\":%ld,\"ch\":%ld,\"vc\":[",(long)c->numConstraintsSatisfied,(long)c->propagatedNumConstraintsSatisfied,(long)(c->hasChildren!=0));
      if(c->virtualChildCluster) for(size_t j=0;j<c->virtualChildCluster->size;j++) raw("%s%ld",j?",":"",(long)((index_t*)c->virtualChildCluster->data)[j]);
      raw("],\"de\":["); if(c->propagatedDescendants) for(size_t j=0;j<c->propagatedDescendants->size;j++) raw("%s%ld",j?",":"",(long)((cluster**)c->propagatedDescendants->data)[j]->label);
      raw("]}"); } raw("]"); evend(); }
  if(strchr(mask,'l')){ ev("labels"); kv("h",h); raw(",\"l\":["); for(long i=0;i<n;i++) raw(i?",%ld":"%ld",(long)s->clusterLabels[i]); raw("]"); evend(); }
  if(strchr(mask,'s')){ ev("scores"); kv("h",h); raw(",\"s\":["); for(long i=0;i<n;i++){ raw("%s[%ld,",i?",":"",(long)s->outlierScores[i].id); num((double)s->outlierScores[i].coreDistance); raw(","); num((double)s->outlierScores[i].score); raw("]"); } raw("]"); evend(); }
  if(strchr(mask,'g')){ UndirectedGraph *g=s->mst; ev("mgraph"); kv("h",h); raw(",\"nv\":%ld,\"es\":[",(long)g->numVertices); for(size_t i=0;i<g->edgeWeights->size;i++){ raw("%s[%ld,%ld,",i?",":"",(long)((index_t*)g->verticesA->data)[i],(long)((index_t*)g->verticesB->data)[i]); num((double)((distance_t*)g->edgeWeights->data)[i]); raw("]"); } raw("],\"adj\":["); for(long v=0;v<(long)g->numVertices;v++){ raw(v?",[":"["); for(size_t i=0;i<g->edges[v]->size;i++) raw("%s%ld",i?",":"",(long)((index_t*)g->edges[v]->data)[i]); raw("]"); } raw("]"); evend(); }
  if(strchr(mask,'z')){ /* which results are still held */ ev("held"); kv("h",h); raw(",\"f\":[%d,%d,%d,%d,%d,%d,%d,%d]",s->distanceFunction.distances!=NULL,s->distanceFunction.coreDistances!=NULL,s->mst!=NULL,s->hierarchy!=NULL,s->clusters!=NULL,s->clusterStabilities!=NULL,s->clusterLabels!=NULL,s->outlierScores!=NULL); kv("mp",(long)s->minPoints); kv("np",(long)s->numPoints); evend(); }
}
static void op_obj(void){
  int h=(int)I(); const char *w=tok();
  if(IS("init")){ long mp=I(); const char *where=tok(); if(!strcmp(where,"st")){ if(!Hst[h]){ vmem_mode(0); Hst[h]=(hdbscan*)malloc(sizeof(hdbscan)); vmem_mode(1);} POISON(Hst[h],sizeof(hdbscan)); H[h]= CXX? (hdbscan*)xx_new(mp,Hst[h],mp==3) : hdbscan_init(Hst[h],(index_t)mp); } else H[h]= CXX? (hdbscan*)xx_new(mp,NULL,mp==3) : hdbscan_init(NULL,(index_t)mp);
    ev("init"); kv("h",h); ks("where",!strcmp(where,"st")?"st":"heap"); kv("mp",mp); kv("rm",(long)H[h]->minPoints); evend(); }
  else if(IS("run")){ int k=(int)I(); int keep=more()?(int)I():0; size_t nb=DS[k].bytes; vmem_mode(0); char *cp=(char*)malloc(nb+1); memcpy(cp,DS[k].p,nb); vmem_mode(1);
    int r=HDBSCAN_SUCCESS; if(CXX) { xx_run(H[h],cp,DS[k].rows,DS[k].cols,DS[k].rw,DS[k].type); } else r=hdbscan_run(H[h],cp,(index_t)DS[k].rows,(index_t)DS[k].cols,DS[k].rw?TRUE:FALSE,(index_t)DS[k].type);
    int same=!memcmp(cp,DS[k].p,nb); (void)keep; memset(cp,0x77,nb); free(cp);
    ev("run"); kv("h",h); kv("k",k); kv("ret",r==HDBSCAN_SUCCESS); kv("in",same); kv("np",(long)H[h]->numPoints); evend(); }
  else if(IS("steps")){ /* the stages of a run, called one by one */ int k=(int)I(); int compact=more()?(int)I():0; hdbscan *s=H[h]; size_t nb=DS[k].bytes; vmem_mode(0); char *cp=(char*)malloc(nb+1); memcpy(cp,DS[k].p,nb); vmem_mode(1);
    if(CXX) xx_clean(s); else hdbscan_clean(s);
    distance_init(&s->distanceFunction,_EUCLIDEAN,(enum HTYPES)DS[k].type); s->numPoints=(index_t)(DS[k].rw?DS[k].rows:DS[k].rows*DS[k].cols);
    distance_compute(&s->distanceFunction,cp,s->numPoints,DS[k].rw?(index_t)DS[k].cols:1,(index_t)(s->minPoints-1));
    s->clusters=ptr_array_list_init(4,cluster_compare); s->clusterStabilities=hashtable_init(4,H_INT,H_PTR,int_compare); s->hierarchy=hashtable_init(4,H_LONG,H_PTR,long_compare);
    vmem_mode(0); distance_t *nl=(distance_t*)malloc(sizeof(distance_t)*((size_t)s->numPoints+1)); label_t *lc=(label_t*)malloc(sizeof(label_t)*((size_t)s->numPoints+1)); vmem_mode(1); int r=HDBSCAN_SUCCESS,inf;
    if(CXX){ xx_mst(s); graph_quicksort_by_edge_weight(s->mst); xx_hier(s,compact,nl,lc); inf=xx_inf(s); xx_prom(s,inf); xx_scores(s,nl,lc,inf); }
    else { r=hdbscan_construct_mst(s); graph_quicksort_by_edge_weight(s->mst); hdbscan_compute_hierarchy_and_cluster_tree(s,compact,nl,lc); inf=hdbscan_propagate_tree(s); hdbscan_find_prominent_clusters(s,inf); hdbscsan_calculate_outlier_scores(s,nl,lc,inf); }
    int same=!memcmp(cp,DS[k].p,nb); free(cp); free(nl); free(lc);
    ev("run"); kv("h",h); kv("k",k); kv("compact",compact); kv("ret",r==HDBSCAN_SUCCESS); kv("in",same); kv("np",(long)s->numPoints); evend(); }
  else if(IS("rerun")){ long mp=I(); int r=HDBSCAN_SUCCESS; if(CXX) { xx_rerun(H[h],mp); } else r=hdbscan_rerun(H[h],(index_t)mp); ev("rerun"); kv("h",h); kv("mp",mp); kv("ret",r==HDBSCAN_SUCCESS); evend(); }
  else if(IS("dump")) dump_hdb(h,tok());
  else if(IS("cons")){ /* constraints, which are the object's from then on */ int n=(int)I(); ArrayList *a=ptr_array_list_init((size_t)(n?n:1),ptr_compare); for(int i=0;i<n;i++){ constraint *c=constraint_init(NULL,i,i+1,i%2?MUST_LINK:CANNOT_LINK); array_list_append(a,&c); } H[h]->constraints=a; ev("cons"); kv("h",h); kv("n",n); evend(); }
  else if(IS("clean")){ if(CXX) { xx_clean(H[h]); } else hdbscan_clean(H[h]); ev("clean"); kv("h",h); evend(); }
  else if(IS("destroy")){ if(CXX) { if(H[h]==Hst[h]){ xx_end(H[h]); } else { xx_delete(H[h]); } } else hdbscan_destroy(H[h]); H[h]=NULL; ev("destroy"); kv("h",h); evend(); }
  else if(IS("inf")){ /* infinite-stability report of the propagation */ int r= CXX? xx_inf(H[h]) : hdbscan_propagate_tree(H[h]); ev("inf"); kv("h",h); kv("r",r!=0); evend(); }
  else if(IS("hset")){ /* rows of the hierarchy are readable in any order */ ev("hkeys"); kv("h",h); raw(",\"k\":["); for(size_t i=0;i<hashtable_size(H[h]->hierarchy);i++){ int64_t k; set_value_at(H[h]->hierarchy->keys,i,&k); raw("%s%ld",i?",":"",(long)k);} raw("]"); evend(); }
  else if(IS("print")){ /* printers write to the (discarded or captured) standard output */ }
}
static void show_map(const char *e,int c,hashtable *t){
  if(CXX){ ev(e); kv("c",c); kv("h",cx->mq[0]); kv("ls",cx->mq[1]); kv("b",cx->mq[2]); kv("en",cx->mq[3]); long n=xx_cmap_size(t); kv("size",n); kv("tsize",n); raw(",\"m\":["); for(long i=0;i<n;i++){ long l=0,k=xx_cmap_at(t,i,&l,-1); raw("%s[%ld,[",i?",":"",l); for(long j=0;j<k;j++){ xx_cmap_at(t,i,&l,j); raw("%s%ld",j?",":"",l); } raw("]]"); } raw("]"); evend(); return; }
  ev(e); kv("c",c); kv("h",cx->mq[0]); kv("ls",cx->mq[1]); kv("b",cx->mq[2]); kv("en",cx->mq[3]); kv("size",(long)hashtable_size(t)); kv("tsize",(long)t->size); raw(",\"m\":["); for(size_t i=0;i<t->keys->size;i++){ label_t key=((label_t*)t->keys->data)[i]; ArrayList *l=NULL; int r=hashtable_lookup(t,&key,&l); raw("%s[%ld,[",i?",":"",(long)key); if(r&&l) for(size_t j=0;j<l->size;j++) raw("%s%ld",j?",":"",(long)((index_t*)l->data)[j]); raw("]]"); } raw("]"); evend(); }
static void show_dm(const char *e,int c,hashtable *t){
  if(CXX){ ev(e); kv("c",c); kv("h",cx->mq[0]); kv("cm",cx->mq[1]); long n=xx_dm_size(t); kv("size",n); raw(",\"m\":["); for(long i=0;i<n;i++){ double x[6]={0}; long l=xx_dm_at(t,i,x); raw("%s[%ld",i?",":"",l); for(int q=0;q<6;q++){ raw(","); num(x[q]); } raw("]"); } raw("]"); evend(); return; }
  ev(e); kv("c",c); kv("h",cx->mq[0]); kv("cm",cx->mq[1]); kv("size",(long)hashtable_size(t)); raw(",\"m\":["); for(size_t i=0;i<t->keys->size;i++){ label_t key=((label_t*)t->keys->data)[i]; distance_values *v=NULL; int r=hashtable_lookup(t,&key,&v); raw("%s[%ld",i?",":"",(long)key); if(r&&v){ double x[6]={(double)v->min_cr,(double)v->max_cr,(double)v->min_dr,(double)v->max_dr,(double)v->cr_confidence,(double)v->dr_confidence}; for(int q=0;q<6;q++){ raw(","); num(x[q]); } } raw("]"); } raw("]"); evend(); }
static void show_stats(int s){ clustering_stats *q=&ST[s]; ev("stats"); kv("s",s); kv("dm",cx->sd); kv("count",(long)q->count); stats_values *v[2]={&q->coreDistanceValues,&q->intraDistanceValues}; for(int i=0;i<2;i++){ raw(",\"%s\":[",i?"dr":"cr"); double x[6]={(double)v[i]->mean,(double)v[i]->standardDev,(double)v[i]->variance,(double)v[i]->max,(double)v[i]->kurtosis,(double)v[i]->skewness}; for(int j=0;j<6;j++){ if(j) raw(","); num(x[j]); } raw("]"); } evend(); }
static void op_an(const char *w){
  if(IS("cmap")){ int h=(int)I(),c=(int)I(); long b=more()?I():0, e=more()?I():(long)H[h]->numPoints; cx->mq[0]=h; cx->mq[1]=-1; cx->mq[2]=b; cx->mq[3]=e; CM[c]= CXX? (hashtable*)xx_cmap(H[h]->clusterLabels,b,e) : hdbscan_create_cluster_map(H[h]->clusterLabels,(index_t)b,(index_t)e); show_map("cmap",c,CM[c]); }
  else if(IS("labs")){ int c=(int)I(); long n=I(); vmem_mode(0); LB[c]=(label_t*)malloc((size_t)(n?n:1)*sizeof(label_t)); vmem_mode(1); ev("labs"); kv("ls",c); raw(",\"l\":["); for(long i=0;i<n;i++){ LB[c][i]=(label_t)I(); raw("%s%ld",i?",":"",(long)LB[c][i]); } raw("]"); evend(); }
  else if(IS("cmaparr")){ int l=(int)I(),c=(int)I(); long b=I(),e=I(); cx->mq[0]=-1; cx->mq[1]=l; cx->mq[2]=b; cx->mq[3]=e; CM[c]= CXX? (hashtable*)xx_cmap(LB[l],b,e) : hdbscan_create_cluster_map(LB[l],(index_t)b,(index_t)e); show_map("cmap",c,CM[c]); }
  else if(IS("minmax")){ int h=(int)I(),c=(int)I(),d=(int)I(); cx->mq[0]=h; cx->mq[1]=c; DM[d]= CXX? (hashtable*)xx_minmax(H[h],CM[c]) : hdbscan_get_min_max_distances(H[h],CM[c]); show_dm("minmax",d,DM[d]); }
  else if(IS("mkdm")){ /* a distance map given entry by entry: label min_cr max_cr min_dr max_dr cr_conf dr_conf */ int d=(int)I(); if(CXX){ DM[d]=(hashtable*)xx_mkdm(); while(more()){ long k=I(); double v[6]; for(int q=0;q<6;q++) v[q]=D(); (void)k; xx_dm_put(DM[d],k,v); } show_dm("mkdm",d,DM[d]); return; } DM[d]=hashtable_init_size(7,sizeof(label_t)==sizeof(int)?H_INT:sizeof(label_t)==sizeof(long)?H_LONG:H_SHORT,H_PTR,sizeof(label_t)==sizeof(int)?int_compare:sizeof(label_t)==sizeof(long)?long_compare:short_compare);
    while(more()){ label_t k=(label_t)I(); distance_values *v=(distance_values*)malloc(sizeof *v); v->min_cr=(distance_t)D(); v->max_cr=(distance_t)D(); v->min_dr=(distance_t)D(); v->max_dr=(distance_t)D(); v->cr_confidence=(distance_t)D(); v->dr_confidence=(distance_t)D(); hashtable_insert(DM[d],&k,&v); } show_dm("mkdm",d,DM[d]); }
  else if(IS("stats")){ int d=(int)I(),s=(int)I(); POISON(&ST[s],sizeof ST[s]); if(CXX) { xx_stats(DM[d],&ST[s]); } else hdbscan_calculate_stats(DM[d],&ST[s]); cx->sd=d; show_stats(s); show_dm("conf",d,DM[d]); }
  else if(IS("analyse")){ int s=(int)I(); clustering_stats c=ST[s]; ev("analyse"); kv("s",s); kv("v",(CXX? xx_analyse(&c) : hdbscan_analyse_stats(&c))); evend(); }
  else if(IS("validity")){ clustering_stats c; memset(&c,0,sizeof c); c.coreDistanceValues.skewness=(distance_t)D(); c.coreDistanceValues.kurtosis=(distance_t)D(); c.intraDistanceValues.skewness=(distance_t)D(); c.intraDistanceValues.kurtosis=(distance_t)D();
    ev("validity"); kd("sc",(double)c.coreDistanceValues.skewness); kd("kc",(double)c.coreDistanceValues.kurtosis); kd("sd",(double)c.intraDistanceValues.skewness); kd("kd",(double)c.intraDistanceValues.kurtosis); kv("v",(CXX? xx_analyse(&c) : hdbscan_analyse_stats(&c))); evend(); }
  else if(IS("sort")){ /* sort sim0|sim1|len MAP OUT mode(null|list) labels... */ const char *what=tok(); int m=(int)I(),o=(int)I(); const char *mode=tok(); ArrayList *in=NULL; ev("sort"); ks("what",what); kv("m",m); kv("o",o); ks("mode",mode); raw(",\"in\":["); 
    if(CXX){ long io[8192]; long n=0; while(strcmp(mode,"null")&&more()){ io[n]=I(); raw(n?",%ld":"%ld",io[n]); n++; } n=xx_sort(what,!strcmp(what,"len")?(void*)CM[m]:(void*)DM[m],io,n); raw("],\"same\":1,\"out\":["); for(long i=0;i<n;i++) raw("%s%ld",i?",":"",io[i]); raw("]"); evend(); return; }
    if(strcmp(mode,"null")){ in=array_list_init(4,sizeof(label_t),sizeof(label_t)==sizeof(int)?int_compare:sizeof(label_t)==sizeof(long)?long_compare:short_compare); int f=1; while(more()){ label_t k=(label_t)I(); array_list_append(in,&k); raw(f?"%ld":",%ld",(long)k); f=0; } }
    raw("]");
    ArrayList *r= !strcmp(what,"len")? hdbscan_sort_by_length(CM[m],in) : hdbscan_sort_by_similarity(DM[m],in,!strcmp(what,"sim0")?CORE_DISTANCE_TYPE:INTRA_DISTANCE_TYPE);
    raw(",\"same\":%d,\"out\":[",in==NULL||in==r); for(size_t i=0;i<r->size;i++) raw("%s%ld",i?",":"",(long)((label_t*)r->data)[i]); raw("]"); SL[o]=r; evend(); }
  else if(IS("sortfree")){ int o=(int)I(); if(!CXX) array_list_delete(SL[o]); SL[o]=NULL; ev("sortfree"); kv("c",o); evend(); }
  else if(IS("qsort")){ /* hdbscan_quicksort on explicit data: n labels then n keys */ long n=I(); ArrayList *a=array_list_init((size_t)n+1,sizeof(label_t),int_compare), *b=array_list_init((size_t)n+1,sizeof(distance_t),double_compare); for(long i=0;i<n;i++){ label_t k=(label_t)I(); array_list_append(a,&k);} for(long i=0;i<n;i++){ distance_t k=(distance_t)D(); array_list_append(b,&k);} 
    ev("qsort"); raw(",\"in\":["); for(long i=0;i<n;i++){ raw("%s[%ld,",i?",":"",(long)((label_t*)a->data)[i]); num((double)((distance_t*)b->data)[i]); raw("]"); } raw("]"); if(CXX){ long *x=(long*)__real_malloc(sizeof(long)*(size_t)(n+1)); double *y=(double*)__real_malloc(sizeof(double)*(size_t)(n+1)); for(long i=0;i<n;i++){ x[i]=(long)((label_t*)a->data)[i]; y[i]=(double)((distance_t*)b->data)[i]; } xx_qsort(n,x,y); for(long i=0;i<n;i++){ ((label_t*)a->data)[i]=(label_t)x[i]; ((distance_t*)b->data)[i]=(distance_t)y[i]; } __real_free(x); __real_free(y); } else hdbscan_quicksort(a,b,0,(int32_t)n-1); raw(",\"out\":["); for(long i=0;i<n;i++){ raw("%s[%ld,",i?",":"",(long)((label_t*)a->data)[i]); num((double)((distance_t*)b->data)[i]); raw("]"); } raw("]"); evend(); array_list_delete(a); array_list_delete(b); }
  else if(IS("mapfree")){ int c=(int)I(); if(CXX) { xx_cmap_free(CM[c]); } else hdbscan_destroy_cluster_map(CM[c]); CM[c]=NULL; ev("mapfree"); kv("c",c); evend(); }
  else if(IS("dmfree")){ int c=(int)I(); if(CXX) { xx_dm_free(DM[c]); } else hdbscan_destroy_distance_map(DM[c]); DM[c]=NULL; ev("dmfree"); kv("c",c); evend(); }
}

/* from here to the end of the next operation on a collection memory is denied */
static int denying; static void deny(void){ long n=I(); int on=(int)I(); denying=1; vmem_fail_at(n,on); }
static void denied(void){ if(denying){ kv("den",vmem_denied()); denying=0; } }
/* ------------------------------------------------------------- collections */
/* many operations at once: values lo + i*step mod m for i = 0..n-1 */
static struct { long lo,st,m,n; char w[40]; } BK;
static void bulk(void){ BK.lo=I(); BK.st=I(); BK.m=I(); BK.n=I(); }
static const char *bval(long i){ snprintf(BK.w,sizeof BK.w,"%ld",BK.lo+(long)((unsigned long)i*(unsigned long)BK.st%(unsigned long)BK.m)); return BK.w; }
static struct { ArrayList *a; char t; } AL[NS];
static long every=1,opn; /* contents are shown at every so many operations */
static int full(void){ return opn++%every==0; }
static void show_al(ArrayList *a,char t){ if(full()){ raw(",\"x\":["); for(size_t i=0;i<a->size;i++){ if(i) raw(","); show(t,(char*)a->data+i*a->step); } raw("]"); } raw(",\"sz\":%ld,\"cap\":%d",(long)array_list_size(a),a->size<=a->max_size); }
static void op_al(void){
  int k=(int)I(); const char *w=tok(); union{double d;long l;char c[16];} v; memset(&v,0x5A,sizeof v); ArrayList *a=AL[k].a; char t=AL[k].t; long r=0; int hasv=0;
  ev("al"); kv("k",k); ks("op",w);
  if(!a&&strncmp(w,"init",4)){ denied(); kv("r",-7); evend(); return; } /* not there */
  if(IS("init")){ t=AL[k].t=*tok(); long n=I(); a=AL[k].a= t=='p'? ptr_array_list_init((size_t)n,cmpof(t)) : array_list_init((size_t)n,szof(t),cmpof(t)); char b[2]={t,0}; ks("t",b); kv("a",n); r=a!=NULL; }
  else if(IS("append")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); r=array_list_append(a,&v); }
  else if(IS("insert")){ put(t,&v,tok()); long p=I(); raw(",\"v\":"); show(t,&v); kv("a",p); r=array_list_insert_at(a,&v,(size_t)p); }
  else if(IS("bulk")){ bulk(); raw(",\"vs\":["); for(long i=0;i<BK.n;i++){ put(t,&v,bval(i)); raw(i?",":""); show(t,&v); r+=array_list_append(a,&v); } raw("]"); }
  else if(IS("replace")){ put(t,&v,tok()); long p=I(); raw(",\"v\":"); show(t,&v); kv("a",p); r=array_list_replace_at(a,&v,(size_t)p); }
  else if(IS("at")){ long p=I(); kv("a",p); r=array_list_value_at(a,(size_t)p,&v); hasv=r>0; }
  else if(IS("removeat")){ long p=I(); kv("a",p); r=array_list_remove_at(a,(size_t)p,&v); hasv=r>0; }
  else if(IS("remove")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); r=array_list_remove(a,&v); hasv=r>0; }
  else if(IS("pop")){ r=array_list_pop(a,&v); hasv=r>0; }
  else if(IS("find")){ put(t,&v,tok()); long s=I(); raw(",\"v\":"); show(t,&v); kv("a",s); r=(long)array_list_find(a,&v,(int32_t)s); }
  else if(IS("sort")){ array_list_sort(a); }
  else if(IS("clear")){ long s=I(); kv("a",s); array_list_clear(a,(int32_t)s); }
  else if(IS("empty")){ r=array_list_empty(a); }
  else if(IS("grow")){ size_t c=a->max_size; r=array_list_grow(a); kv("more",a->max_size>c); }
  else if(IS("size")){ r=(long)array_list_size(a); }
  else if(IS("delete")){ r=array_list_delete(a)==NULL; AL[k].a=NULL; a=NULL; }
  denied(); kv("r",r); if(hasv){ raw(",\"got\":"); show(t,&v); }
  if(a) show_al(a,t);
  evend(); }
static struct { set_t *a; char t; } SE[NS];
static void op_set(void){
  int k=(int)I(); const char *w=tok(); union{double d;long l;char c[16];} v; memset(&v,0x5A,sizeof v); set_t *a=SE[k].a; char t=SE[k].t; long r=0; int hasv=0;
  ev("set"); kv("k",k); ks("op",w);
  if(!a&&strncmp(w,"init",4)){ denied(); kv("r",-7); evend(); return; } /* not there */
  if(IS("init")){ t=SE[k].t=*tok(); a=SE[k].a=set_init(szof(t),cmpof(t)); char b[2]={t,0}; ks("t",b); r=a!=NULL; }
  else if(IS("insert")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); r=set_insert(a,&v); }
  else if(IS("bulk")){ bulk(); raw(",\"vs\":["); for(long i=0;i<BK.n;i++){ put(t,&v,bval(i)); raw(i?",":""); show(t,&v); r+=set_insert(a,&v); } raw("]"); }
  else if(IS("remove")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); r=set_remove(a,&v); hasv=r>0; }
  else if(IS("removeat")){ long p=I(); kv("a",p); r=set_remove_at(a,(size_t)p,&v); hasv=r>0; }
  else if(IS("at")){ long p=I(); kv("a",p); r=set_value_at(a,(size_t)p,&v); hasv=r>0; }
  else if(IS("find")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); r=(long)set_find(a,&v); }
  else if(IS("sort")){ set_sort(a); }
  else if(IS("clear")){ set_clear(a); }
  else if(IS("empty")){ r=set_empty(a); }
  else if(IS("size")){ r=(long)set_size(a); }
  else if(IS("delete")){ r=set_delete(a)==NULL; SE[k].a=NULL; a=NULL; }
  denied(); kv("r",r); if(hasv){ raw(",\"got\":"); show(t,&v); }
  if(a) show_al(a,t);
  evend(); }
/* hashtables; key type string: the key is a char array whose address is passed */
static struct { hashtable *h; char kt, dt; } HT[NS];
static long dk[100000]; static int ndk; static long dv[100000]; static int ndv;
static char KT='p'; /* type of the keys of the table at hand: 'p' pointer to a number, 't' string */
static long unbox(char t,const void *p){ return t=='t'?strtol((const char*)p+1,NULL,10):*(const long*)p; }
static void key_d(void *p){ if(ndk<100000) dk[ndk++]=vmem_owned(p)?unbox(KT,p):-1; free(p); }
static void val_d(void *p){ if(ndv<100000) dv[ndv++]=vmem_owned(p)?*(long*)p:-1; free(p); }
static int32_t pl_compare(const void *a,const void *b){ long x=**(long**)a,y=**(long**)b; return x>y?1:x<y?-1:0; }
static int32_t st_compare(const void *a,const void *b){ return strcmp(*(char**)a,*(char**)b); }
static size_t pl_hash(void *k,size_t b){ return (size_t)**(long**)k % b; }
static enum HTYPES kty(char c){ return c=='p'?H_PTR:c=='t'?H_STRING:(enum HTYPES)htype(c); }
static cmpf kcmp(char c){ return c=='p'?pl_compare:c=='t'?st_compare:cmpof(c); }
static void *mkbox(char t,long v){ vmem_mode(0); long *p=(long*)malloc(t=='t'?40:sizeof(long)); vmem_mode(1); if(t=='t') sprintf((char*)p,"k%013ld%s",v,&"abc"[3-v%4]); else *p=v; return p; }
#define KP(t) ((t)=='p'||(t)=='t')
static void hput(char t,void *p,const char *s){ if(KP(t)){ *(void**)p=mkbox(t,strtol(s,0,0)); } else put(t,p,s); }
static void hshow(char t,const void *p){ if(KP(t)){ void *q=*(void**)p; raw("%ld",vmem_owned(q)?unbox(t,q):-777777L); } else show(t,p); }
static void op_ht(void){
  int k=(int)I(); const char *w=tok(); union{double d;long l;void*p;char c[16];} ky,v; memset(&v,0x5A,sizeof v); memset(&ky,0x5A,sizeof ky); hashtable *h=HT[k].h; char kt=HT[k].kt,dt=HT[k].dt; long r=0; int hasv=0; KT=kt; ndk=ndv=0;
  ev("ht"); kv("k",k); ks("op",w);
  if(!h&&strncmp(w,"init",4)){ denied(); kv("r",-7); evend(); return; } /* not there */
  if(IS("init")||IS("initsize")){ kt=HT[k].kt=*tok(); dt=HT[k].dt=*tok(); long b=I(); h=HT[k].h= (*w&&w[4]=='s')?hashtable_init_size((size_t)b,kty(kt),kty(dt),kcmp(kt)):hashtable_init((size_t)b,kty(kt),kty(dt),kcmp(kt)); if(kt=='p'&&h) h->key_hash=pl_hash; kv("a",b); r=h!=NULL; kv("bk",h?(long)h->buckets:0); char t[3]={kt,dt,0}; ks("t",t); }
  else if(IS("insert")){ const char *kk=tok(),*vv=tok(); hput(kt,&ky,kk); hput(dt,&v,vv); raw(",\"key\":"); hshow(kt,&ky); raw(",\"v\":"); hshow(dt,&v); r=hashtable_insert(h,&ky,&v); hasv=(r<0); }
  else if(IS("bulk")){ bulk(); raw(",\"vs\":["); for(long i=0;i<BK.n;i++){ hput(kt,&ky,bval(i)); char b[9]; snprintf(b,sizeof b,"%ld",i%7+1); hput(dt,&v,b); raw(i?",[":"["); hshow(kt,&ky); raw(","); hshow(dt,&v); raw("]"); long q=hashtable_insert(h,&ky,&v); if(q==1) r++; else { if(KP(kt)) free(ky.p); if(KP(dt)) free(v.p); } } raw("]"); }
  else if(IS("lookup")){ hput(kt,&ky,tok()); raw(",\"key\":"); hshow(kt,&ky); r=hashtable_lookup(h,&ky,&v); hasv=r>0; if(KP(kt)) free(ky.p); }
  else if(IS("remove")){ hput(kt,&ky,tok()); raw(",\"key\":"); hshow(kt,&ky); r=hashtable_remove(h,&ky,&v); hasv=r>0; if(KP(kt)) free(ky.p); }
  else if(IS("clear")){ long a=I(); kv("a",a); r=hashtable_clear(h,(a&1)?key_d:NULL,(a&2)?val_d:NULL); }
  else if(IS("destroy")){ long a=I(); kv("a",a); r=hashtable_destroy(h,(a&1)?key_d:NULL,(a&2)?val_d:NULL); if(r){ HT[k].h=NULL; h=NULL; } }
  else if(IS("size")){ r=(long)hashtable_size(h); }
  else if(IS("empty")){ r=hashtable_empty(h); }
  denied(); kv("r",r); if(hasv){ raw(",\"got\":"); hshow(dt,&v); if(KP(dt)&&IS("insert")) free(v.p); if(KP(dt)&&IS("remove")) free(v.p); }
  if(KP(kt)&&IS("insert")&&r<0) free(ky.p);
  raw(",\"dk\":["); for(int i=0;i<ndk;i++) raw("%s%ld",i?",":"",dk[i]); raw("],\"dv\":["); for(int i=0;i<ndv;i++) raw("%s%ld",i?",":"",dv[i]); raw("]");
  if(h){ raw(",\"sz\":%ld",(long)hashtable_size(h)); if(full()){ raw(",\"ks\":["); for(size_t i=0;i<h->keys->size;i++){ if(i) raw(","); hshow(kt,(char*)h->keys->data+i*h->keys->step); } raw("]"); } raw(",\"em\":%d",hashtable_empty(h)); raw(",\"tsz\":%ld",(long)h->size); }
  evend(); }
static struct { linkedlist *l; char t; } LL[NS];
static void op_ll(void){
  int k=(int)I(); const char *w=tok(); union{double d;long l;char c[16];} v; memset(&v,0x5A,sizeof v); linkedlist *l=LL[k].l; char t=LL[k].t; long r=0; int hasv=0; void *p;
  ev("ll"); kv("k",k); ks("op",w);
  if(!l&&strncmp(w,"init",4)){ denied(); kv("r",-7); evend(); return; } /* not there */
  if(IS("init")){ t=LL[k].t=*tok(); l=LL[k].l=linkedlist_init(szof(t)); char b[2]={t,0}; ks("t",b); r=l!=NULL; }
  else if(IS("front")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); r=linkedlist_front_add(l,&v); }
  else if(IS("tail")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); r=linkedlist_tail_add(l,&v); }
  else if(IS("bulk")){ bulk(); raw(",\"vs\":["); for(long i=0;i<BK.n;i++){ put(t,&v,bval(i)); raw(i?",":""); show(t,&v); r+=linkedlist_tail_add(l,&v); } raw("]"); }
  else if(IS("nfront")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); node *n=linkedlist_node_front_add(l,&v); r=n!=NULL&&n==l->head; }
  else if(IS("ntail")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); node *n=linkedlist_node_tail_add(l,&v); r=n!=NULL&&n==l->tail; }
  else if(IS("lookup")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); p=linkedlist_lookup(l,&v,0,cmpof(t)); r=p!=NULL; if(p){ memcpy(&v,p,szof(t)); hasv=1; } }
  else if(IS("take")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); p=linkedlist_lookup(l,&v,1,cmpof(t)); r=p!=NULL; if(p){ memcpy(&v,p,szof(t)); hasv=1; free(p);} }
  else if(IS("remove")){ put(t,&v,tok()); raw(",\"v\":"); show(t,&v); r=linkedlist_remove(l,&v,cmpof(t)); }
  else if(IS("gethead")){ p=linkedlist_head(l,0); r=p!=NULL; if(p){ memcpy(&v,p,szof(t)); hasv=1; } }
  else if(IS("gettail")){ p=linkedlist_tail(l,0); r=p!=NULL; if(p){ memcpy(&v,p,szof(t)); hasv=1; } }
  else if(IS("at")){ long i=I(); kv("a",i); r=linkedlist_value_at(l,(int32_t)i,&v); hasv=r>=0; }
  else if(IS("notempty")){ r=linkedlist_empty(l); }
  else if(IS("clear")){ linkedlist_clear(l); }
  else if(IS("delete")){ if(l) linkedlist_delete(l); LL[k].l=NULL; l=NULL; }
  denied(); kv("r",r); if(hasv){ raw(",\"got\":"); show(t,&v); }
  if(l){ if(full()){ raw(",\"fw\":["); long i=0; for(node *n=l->head;n&&i<=(long)l->size+8;n=n->next,i++){ if(i) raw(","); show(t,n->data);} raw("],\"bw\":["); i=0; for(node *n=l->tail;n&&i<=(long)l->size+8;n=n->prev,i++){ if(i) raw(","); show(t,n->data);} raw("]"); } raw(",\"sz\":%ld",(long)l->size); }
  evend(); }
/* ------------------------------------------------------------- graphs */
static UndirectedGraph *G[NS];
static void gdump(int k){ UndirectedGraph *g=G[k]; raw(",\"nv\":%ld,\"es\":[",(long)g->numVertices); for(size_t i=0;i<g->edgeWeights->size;i++){ raw("%s[%ld,%ld,",i?",":"",(long)((index_t*)g->verticesA->data)[i],(long)((index_t*)g->verticesB->data)[i]); num((double)((distance_t*)g->edgeWeights->data)[i]); raw("]"); } raw("],\"adj\":["); for(long v=0;v<(long)g->numVertices;v++){ raw(v?",[":"["); for(size_t i=0;i<g->edges[v]->size;i++) raw("%s%ld",i?",":"",(long)((index_t*)g->edges[v]->data)[i]); raw("]"); } raw("]"); }
static void op_graph(void){
  int k=(int)I(); const char *w=tok(); ev("graph"); kv("k",k); ks("op",w);
  if(IS("init")){ long nv=I(),m=I(); cmpf ic=sizeof(index_t)==4?int_compare:sizeof(index_t)==8?long_compare:short_compare; ArrayList *a=array_list_init((size_t)m+1,sizeof(index_t),ic),*b=array_list_init((size_t)m+1,sizeof(index_t),ic),*e=array_list_init((size_t)m+1,sizeof(distance_t),sizeof(distance_t)==8?double_compare:float_compare);
    for(long i=0;i<m;i++){ index_t x=(index_t)I(),y=(index_t)I(); distance_t z=(distance_t)D(); array_list_append(a,&x); array_list_append(b,&y); array_list_append(e,&z);} UndirectedGraph *at=NULL; if(CXX&&nv%2) { at=(UndirectedGraph*)xx_gnew(); graph_clean(at); } G[k]=graph_init(at,(index_t)nv,a,b,e); }
  else if(IS("empty")){ G[k]= CXX? (UndirectedGraph*)xx_gnew() : graph_init(NULL,0,NULL,NULL,NULL); raw(",\"nv\":%ld",(long)G[k]->numVertices); if(CXX) { xx_gdel(G[k]); } else graph_destroy(G[k]); G[k]=NULL; evend(); return; }
  else if(IS("remove")){ long a=I(),b=I(); kv("a",a); kv("b",b); graph_remove_edge(G[k],(index_t)a,(index_t)b); }
  else if(IS("sort")){ graph_quicksort_by_edge_weight(G[k]); }
  else if(IS("rsort")&&more()){ long a=I(),b=I(); kv("a",a); kv("b",b); graph_quicksort(G[k],a,b); }
  else if(IS("rsort")){ kv("a",0); kv("b",(long)G[k]->edgeWeights->size-1); if(G[k]->edgeWeights->size) graph_quicksort(G[k],0,(int64_t)G[k]->edgeWeights->size-1); }
  else if(IS("pivot")){ long a=I(),b=I(); kv("a",a); kv("b",b); kv("r",graph_select_pivot_index(G[k],a,b)); }
  else if(IS("part")){ long a=I(),b=I(),p=I(); kv("a",a); kv("b",b); kv("p",p); kv("r",graph_partition(G[k],a,b,p)); }
  else if(IS("swap")){ long a=I(),b=I(); kv("a",a); kv("b",b); graph_swap_edges(G[k],a,b); }
  else if(IS("destroy")){ if(CXX&&G[k]->numVertices%2) { xx_gdel(G[k]); } else graph_destroy(G[k]); G[k]=NULL; }
  if(G[k]) gdump(k);
  evend(); }
/* ------------------------------------------------------------- clusters and constraints */
static cluster *CL[NS];
static void cldump(int k){ cluster *c=CL[k]; if(!c){ raw("{\"l\":0,\"k\":%d}",k); return; } int ps=-1; for(int i=0;i<NS&&c->parent;i++) if(CL[i]==c->parent) ps=i; raw("{\"k\":%d,\"l\":%ld,\"p\":%d",k,(long)c->label,ps); kd("b",(double)c->birthLevel); kd("d",(double)c->deathLevel); kv("n",(long)c->numPoints); kd("s",(double)c->stability); kd("ps",(double)c->propagatedStability); kd("ld",(double)c->propagatedLowestChildDeathLevel); kv("nc",(long)c->numConstraintsSatisfied); kv("pc",(long)c->propagatedNumConstraintsSatisfied); kv("ch",(long)(c->hasChildren!=0));
  raw(",\"hv\":%d,\"vc\":[",c->virtualChildCluster!=NULL); if(c->virtualChildCluster) for(size_t j=0;j<c->virtualChildCluster->size;j++) raw("%s%ld",j?",":"",(long)((index_t*)c->virtualChildCluster->data)[j]); raw("],\"de\":["); for(size_t j=0;j<c->propagatedDescendants->size;j++) raw("%s%ld",j?",":"",(long)((cluster**)c->propagatedDescendants->data)[j]->label); raw("]}"); }
static void op_cl(void){
  int k=(int)I(); const char *w=tok(); ev("cl"); kv("k",k); ks("op",w); long par=-1;
  if(IS("init")){ long l=I(); par=I(); double b=D(); long n=I(); kv("l",l); kv("a",par); kd("lv",b); kv("m",n); CL[k]=cluster_init(NULL,(label_t)l,par>=0?CL[par]:NULL,(distance_t)b,(index_t)n); }
  else if(IS("detach")){ long n=I(); double lv=D(); kv("m",n); kd("lv",lv); kv("r",cluster_detach_points(CL[k],(index_t)n,(distance_t)lv)); }
  else if(IS("propagate")){ cluster_propagate(CL[k]); }
  else if(IS("addvc")){ set_t *s=set_init(sizeof(index_t),sizeof(index_t)==4?int_compare:sizeof(index_t)==8?long_compare:short_compare); raw(",\"pts\":["); int f=1; while(more()){ index_t p=(index_t)I(); set_insert(s,&p); raw(f?"%ld":",%ld",(long)p); f=0; } raw("]"); kv("r",cluster_add_points_to_virtual_child_cluster(CL[k],s)); set_delete(s); }
  else if(IS("hasvc")){ long p=I(); kv("m",p); kv("r",cluster_virtual_child_contains_point(CL[k],(index_t)p)); }
  else if(IS("addvcc")){ long m=I(); kv("m",m); cluster_add_virtual_child_constraints_satisfied(CL[k],(index_t)m); }
  else if(IS("addc")){ long m=I(); kv("m",m); cluster_add_constraints_satisfied(CL[k],(index_t)m); }
  else if(IS("release")){ cluster_release_virtual_child(CL[k]); }
  else if(IS("destroy")){ cluster_destroy(CL[k]); CL[k]=NULL; }
  else if(IS("cmp")){ long o=I(); kv("m",o); kv("r",cluster_compare(CL[k],o>=0?CL[o]:NULL)); }
  raw(",\"all\":["); int f=1; for(int i=0;i<NS&&strcmp(w,"destroy");i++) if(CL[i]){ if(!f) raw(","); f=0; cldump(i); } raw("]"); evend(); }
static void op_os(void){ /* outlier scores: compare */ ev("oscmp"); outlier_score a,b; memset(&a,0,sizeof a); memset(&b,0,sizeof b);
  a.score=(distance_t)D(); a.coreDistance=(distance_t)D(); a.id=(index_t)I(); b.score=(distance_t)D(); b.coreDistance=(distance_t)D(); b.id=(index_t)I();
  kd("s1",(double)a.score); kd("c1",(double)a.coreDistance); kv("i1",(long)a.id); kd("s2",(double)b.score); kd("c2",(double)b.coreDistance); kv("i2",(long)b.id); int r=outlier_score_compare(&a,&b); kv("r",r>0?1:r<0?-1:0); r=outlier_score_compare(&b,&a); kv("rr",r>0?1:r<0?-1:0); evend(); }
/* ------------------------------------------------------------- printing and export */
static int capfd;
static void capture_begin(int *save,char *path){ fflush(stdout); int fd=memfd_create("cap",0); snprintf(path,64,"/proc/self/fd/%d",fd); *save=dup(1); dup2(fd,1); capfd=fd; }
static void textof(const char *key,FILE *f){ raw(",\"%s\":\"",key); int c; while(f&&(c=fgetc(f))!=EOF){ if(c=='\n') raw("\\n"); else if(c=='"'||c=='\\') raw("\\%c",c); else if(c=='\t') raw("\\t"); else if(c<32||c>126) raw("\\u%04x",c); else raw("%c",c);} raw("\""); if(f) fclose(f); }
static void capture_end(int save,char *path,const char *e,int o){ fflush(stdout); dup2(save,1); close(save); FILE *f=fopen(path,"r"); ev(e); kv("o",o); textof("txt",f); close(capfd); evend(); }
static void op_print(void){ const char *w=tok(); int save; char path[64];
  if(IS("log")){ const char *ty=tok(); static const char *N[]={"FATAL","ERROR","INFO","WARN","NONE"}; int t=4; for(int i=0;i<5;i++) if(!strcmp(ty,N[i])) t=i; char *text=cx->tp; while(*text==' ') text++; capture_begin(&save,path); logger_write((enum LOGTYPE)t,text); fflush(stdout); dup2(save,1); close(save); FILE *f=fopen(path,"r"); ev("log"); ks("type",N[t]); raw(",\"text\":\""); for(char *q=text;*q;q++) raw("%c",*q); raw("\""); textof("txt",f); close(capfd); evend(); return; }
  if(IS("hierfile")){ int h=(int)I(); const char *name=tok(); vmem_mode(0); char *nm=strdup(name); vmem_mode(1); hdbscan_print_hierarchies(H[h]->hierarchy,H[h]->numPoints,nm); ev("hexport"); kv("h",h); ks("name",name); kv("same",!strcmp(nm,name)); evend(); __real_free(nm); return; }
  if(IS("read")){ const char *name=tok(); const char *suf[2]={"_hierarchy.csv","_visualization.vis"}; FILE *f[2]; for(int q=0;q<2;q++){ char *p2=(char*)__real_malloc(strlen(name)+64); sprintf(p2,"%s%s",name,suf[q]); f[q]=fopen(p2,"r"); __real_free(p2); } ev("hread"); ks("name",name); kv("ok",f[0]&&f[1]?1:f[0]||f[1]?2:0); textof("csv",f[0]); textof("vis",f[1]); evend(); return; }
  int o=(int)I(); char e[32]; snprintf(e,sizeof e,"p%s",w);
  capture_begin(&save,path);
  if(IS("hier")) hdbscan_print_hierarchies(H[o]->hierarchy,H[o]->numPoints,NULL);
  else if(IS("scores")) hdbscan_print_outlier_scores(H[o]->outlierScores,H[o]->numPoints);
  else if(IS("cmap")){ if(CXX) { xx_print("cmap",CM[o]); } else hdbscan_print_cluster_map(CM[o]); }
  else if(IS("csizes")){ if(CXX) { xx_print("csizes",CM[o]); } else hdbscan_print_cluster_sizes(CM[o]); }
  else if(IS("dmap")){ if(CXX) { xx_print("dmap",DM[o]); } else hdbscan_print_distance_map(DM[o]); }
  else if(IS("stats")){ if(CXX) { xx_print("stats",&ST[o]); } else hdbscan_print_stats(&ST[o]); }
  else if(IS("graph")) graph_print(H[o]->mst);
  else if(IS("ugraph")) graph_print(G[o]);
  else if(IS("dist")) distances_print(&H[o]->distanceFunction);
  capture_end(save,path,e,o); }
/* distance objects on their own */
static distance *DO[8]; static distance DOs[8]; static long DOn[8];
static void op_dobj(void){
  int k=(int)I(); const char *w=tok(); int d=0,same=1; long nn=0; char wh='h';
  if(IS("null")){ distance_destroy(NULL); return; }
  if(IS("init")){ int t=htype(*tok()); const char *wt=tok(); wh=*wt; void *at= wh=='s'?(void*)&DOs[k]:NULL; if(at) POISON(&DOs[k],sizeof(distance));
    DO[k]= CXX? (distance*)xx_dnew(at,t,wt[1]) : distance_init((distance*)at,_EUCLIDEAN,(enum HTYPES)t); }
  else if(IS("compute")){ d=(int)I(); nn=I(); size_t nb=DS[d].bytes; vmem_mode(0); char *cp=(char*)malloc(nb+1); memcpy(cp,DS[d].p,nb); vmem_mode(1);
    DOn[k]=DS[d].rw?DS[d].rows:DS[d].rows*DS[d].cols; distance_compute(DO[k],cp,(index_t)DOn[k],DS[d].rw?(index_t)DS[d].cols:1,(index_t)nn); same=!memcmp(cp,DS[d].p,nb); free(cp); }
  else if(IS("cores")){ nn=I(); if(CXX) { xx_dcores(DO[k],nn); } else { DO[k]->numNeighbors=(index_t)nn; distance_get_core_distances(DO[k]); } }
  else if(IS("clean")) distance_clean(DO[k]);
  else if(IS("destroy")){ int st=DO[k]==&DOs[k]; if(CXX) { xx_ddel(DO[k],st); } else if(st) { distance_clean(DO[k]); } else distance_destroy(DO[k]); DO[k]=NULL; }
  ev("dobj"); kv("k",k); ks("op",w); kv("d",d); kv("nn",nn); kv("inp",same); raw(",\"all\":["); int f=1;
  for(int q=0;q<8;q++) if(DO[q]){ distance *o=DO[q]; int full=o->distances!=NULL&&o->coreDistances!=NULL, any=o->distances!=NULL||o->coreDistances!=NULL; long n=full?(long)o->rows:0;
    raw("%s{\"k\":%d,\"full\":%s,\"n\":%ld,\"nn\":%ld,\"d\":[",f?"":",",q,full||any?"true":"false",full?n:any?-1:0,(long)o->numNeighbors); f=0;
    for(long i=0;i<n;i++){ raw(i?",[":"["); for(long j=0;j<n;j++){ if(j) raw(","); num((double)distance_get(o,(index_t)i,(index_t)j)); } raw("]"); }
    raw("],\"c\":["); for(long i=0;i<n;i++){ if(i) raw(","); num((double)o->coreDistances[i]); } raw("]}"); }
  raw("]"); evend(); }
/* ------------------------------------------------------------- functions everything rests on */
typedef size_t (*hashf)(void*,size_t);
static size_t sthash(void *k,size_t b){ return str_hash(*(char**)k,b); }
static hashf hashof(char c){ switch(c){ case 'd':return double_hash; case 'f':return float_hash; case 'i':return int_hash; case 'l':return long_hash; case 's':return short_hash; case 't':return sthash; default:return char_hash; } }
static cmpf pcmpof(char c){ switch(c){ case 'd':return double_ptr_compare; case 'f':return float_ptr_compare; case 'i':return int_ptr_compare; case 'l':return long_ptr_compare; case 's':return short_ptr_compare; case 'p': return ptr_ptr_compare; default:return char_ptr_compare; } }
static int sg(int x){ return x>0?1:x<0?-1:0; }
static outlier_score *OS[NS]; static constraint *CN[NS]; static outlier_score OSs[NS]; static constraint CNs[NS];
static void op_util(void){ const char *w=tok();
  if(IS("cmp")){ char t=*tok(); union{double d;long l;char c[16];} a,b; memset(&a,0x5A,sizeof a); memset(&b,0xA5,sizeof b); put(t,&a,tok()); put(t,&b,tok()); void *pa=&a,*pb=&b; ev("ucmp"); char n[2]={t,0}; ks("t",n); raw(",\"a\":"); show(t,&a); raw(",\"b\":"); show(t,&b);
    kv("r",sg(cmpof(t)(&a,&b))); kv("s",sg(cmpof(t)(&b,&a))); kv("pr",sg(pcmpof(t)(&pa,&pb))); kv("ps",sg(pcmpof(t)(&pb,&pa))); evend(); }
  else if(IS("hash")){ char t=*tok(); union{double d;long l;void*p;char c[16];} a,b; memset(&a,0x5A,sizeof a); memset(&b,0xA5,sizeof b); const char *v=tok(); hput(t,&a,v); hput(t,&b,v); long n=I(); ev("uhash"); char m[2]={t,0}; ks("t",m); raw(",\"a\":"); hshow(t,&a); kv("n",n);
    size_t x=hashof(t)(&a,(size_t)n),y=hashof(t)(&b,(size_t)n); kv("r",x<(size_t)n?(long)x:-1); kv("same",x==y); if(KP(t)){ free(a.p); free(b.p); } evend(); }
  else if(IS("size")){ char t=*tok(); ev("usize"); char m[2]={t,0}; ks("t",m); kv("r",(long)get_htype_size(kty(t))); evend(); }
  else if(IS("prime")){ long n=I(); ev("uprime"); kv("n",n); kv("r",find_prime_less_than((int32_t)n)); evend(); }
  else if(IS("next")){ long n=I(); ev("unext"); kv("n",n); kv("r",get_prime((int32_t)n)); evend(); }
  else if(IS("pow2")){ long n=I(); ev("upow"); kv("n",n); kv("r",(long)highestPowerof2((size_t)n)); evend(); }
  else if(IS("os")){ int k=(int)I(); int given=*tok()=='g'; double a=D(),b=D(); long i=I(); OS[k]=outlier_score_init(given?&OSs[k]:NULL,(distance_t)a,(distance_t)b,(index_t)i); ev("uobj"); kv("k",k); kv("given",given); kv("same",OS[k]==&OSs[k]); raw(",\"want\":["); num((double)(distance_t)a); raw(","); num((double)(distance_t)b); raw(",%ld],\"got\":[",(long)(index_t)i); num((double)OS[k]->score); raw(","); num((double)OS[k]->coreDistance); raw(",%ld]",(long)OS[k]->id); evend(); }
  else if(IS("cons")){ int k=(int)I(); int given=*tok()=='g'; int a=(int)I(),b=(int)I(),t=(int)I(); CN[k]=constraint_init(given?&CNs[k]:NULL,a,b,(CONSTRAINT_TYPE)t); ev("uobj"); kv("k",100+k); kv("given",given); kv("same",CN[k]==&CNs[k]); raw(",\"want\":[%d,%d,%d],\"got\":[%ld,%ld,%d]",a,b,t,(long)CN[k]->pointA,(long)CN[k]->pointB,(int)CN[k]->type); evend(); }
  else if(IS("osfree")){ int k=(int)I(); outlier_score_destroy(OS[k]); OS[k]=NULL; ev("ufree"); kv("k",k); evend(); }
  else if(IS("consfree")){ int k=(int)I(); constraint_destroy(CN[k]); CN[k]=NULL; ev("ufree"); kv("k",100+k); evend(); } }
/* the log: a stream, or (DEBUG) the file hdbscan.log of the working directory, in a folder of its own */
#include <time.h>
#include <sys/stat.h>
static int lsave=-1; static char lpath[64], ldir[64], lt0[64];
static void lstamp(char *b){ time_t t=time(NULL); strftime(b,64,"[%F %T]",localtime(&t)); }
static void lcodes(const char *k,const char *b,size_t n){ raw(",\"%s\":[",k); for(size_t i=0;i<n;i++) raw(i?",%d":"%d",(unsigned char)b[i]); raw("]"); }
static void op_log(void){ const char *w=tok();
  if(IS("begin")){ lstamp(lt0); capture_begin(&lsave,lpath);
#ifdef DEBUG
    strcpy(ldir,"/tmp/vplog.XXXXXX"); if(!mkdtemp(ldir)||chdir(ldir)) _exit(9);
#endif
  }
  else if(IS("init")){ logger_init(); ev("linit"); evend(); }
  else if(IS("close")){ logger_close(); ev("lclose"); evend(); }
  else if(IS("write")){ long t=I(); long ty=I(); const char *hex=tok(); size_t n=*hex=='-'?0:strlen(hex)/2; char *b=(char*)__real_malloc(n+1); for(size_t i=0;i<n;i++){ unsigned x; sscanf(hex+2*i,"%2x",&x); b[i]=(char)x; } b[n]=0;
    logger_write((enum LOGTYPE)ty,b); ev("lwrite"); kv("t",t); kv("ty",ty+1); lcodes("txt",b,n); evend(); __real_free(b); }
  else if(IS("out")){ fflush(stdout); FILE *f;
#ifdef DEBUG
    f=fopen("hdbscan.log","r");
#else
    f=fopen(lpath,"r");
#endif
    char t1[64]; lstamp(t1); char *b=NULL; size_t n=0,c=0; int ch; while(f&&(ch=getc(f))!=EOF){ if(n==c){ c=c?2*c:4096; b=(char*)__real_realloc(b,c); } b[n++]=(char)ch; }
    ev("lout"); lcodes("x",b,n); lcodes("t0",lt0,strlen(lt0)); lcodes("t1",t1,strlen(t1)); evend(); if(f) fclose(f); __real_free(b);
#ifdef DEBUG
    unlink("hdbscan.log"); if(chdir("/")) _exit(9); rmdir(ldir);
#endif
    dup2(lsave,1); close(lsave); close(capfd); } }
static void op_mem(void){ vmem_stats_t s; vmem_get(&s); ev("mem"); kv("live",s.live); kv("bytes",s.bytes); kv("bad",s.badfree); kv("over",s.overrun); evend(); }

/* operations of several threads: separate threads, or coroutines of harness/prt.c */
#include "prt.h"
#include <pthread.h>
void prt_config(int,unsigned long,int) __attribute__((weak)); void prt_run(int,void(*)(void*),void**,int) __attribute__((weak)); void omp_set_num_threads(int) __attribute__((weak));
static void line(char *s);
#define NP 8
static struct hxc pcx[NP]; static char *pl[NP][400]; static int pn[NP]; static int collecting;
static void pgo(void *a){ int t=(int)(long)a; cx=&pcx[t]; for(int i=0;i<pn[t];i++) line(pl[t][i]); }
static void *pthr(void *a){ pgo(a); return NULL; }
#ifdef HX_PRT
static int inpar; static void par_switch(int t){ if(inpar) cx= t<0?&cx0:&pcx[t]; }
static void on_region(int n,int e,prt_iv **iv,size_t *k){ size_t tot=0; for(int i=0;i<n;i++) tot+=k[i]; if(!tot) return; struct hxc *keep=inpar?&cx0:cx; cx=&rcx; rcx.hold=1; rcx.first=0; ev("region"); kv("epoch",e); raw(",\"acc\":["); for(int i=0;i<n;i++){ raw(i?",[":"["); for(size_t j=0;j<k[i];j++){ raw("%s[%lu,%lu,%d,[",j?",":"",iv[i][j].lo,iv[i][j].hi,iv[i][j].w); int f=1; for(int l=0;l<32;l++) if(iv[i][j].locks>>l&1){ raw(f?"%d":",%d",l); f=0; } raw("]]"); } raw("]"); } raw("]"); evend(); cx=keep; if(!evopen){ rflush(); flushout(); } }
#endif
static void op_par(void){ int n=0; for(int i=0;i<NP;i++) if(pn[i]) n=i+1; void *a[NP]; for(int i=0;i<n;i++){ a[i]=(void*)(long)i; memset(&pcx[i],0,sizeof pcx[i]); pcx[i].hold=1; pcx[i].first=1; }
#ifdef HX_PRT
  inpar=1; prt_run(n,pgo,a,0); inpar=0; cx=&cx0;
#else
  pthread_t th[NP]; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,64UL<<20); for(int i=0;i<n;i++) pthread_create(&th[i],&at,pthr,a[i]); for(int i=0;i<n;i++) pthread_join(th[i],NULL);
#endif
  for(int i=0;i<n;i++){ if(pcx[i].on){ pcx[i].ob[pcx[i].on]=0; if(!cx->first) raw(","); cx->first=0; size_t q=0; while(q<pcx[i].on){ size_t m=pcx[i].on-q>300?300:pcx[i].on-q; raw("%.*s",(int)m,pcx[i].ob+q); q+=m; } flushout(); } __real_free(pcx[i].ob); pn[i]=0; } }
static void line(char *s){ if(cx==&cx0){ if(collecting){ if(!strncmp(s,"endpar",6)){ collecting=0; op_par(); return; } int t=s[1]-'0'; pl[t][pn[t]++]=s+3; return; } if(!strncmp(s,"par",3)){ collecting=1; return; } } cx->tp=s; const char *w=tok();
  if(!*w||*w=='#') return;
  if(IS("data")) op_data(); else if(IS("obj")) op_obj(); else if(IS("al")) op_al(); else if(IS("set")) op_set(); else if(IS("ht")) op_ht(); else if(IS("ll")) op_ll(); else if(IS("graph")) op_graph(); else if(IS("dobj")) op_dobj(); else if(IS("util")) op_util(); else if(IS("cl")) op_cl(); else if(IS("oscmp")) op_os(); else if(IS("print")) op_print(); else if(IS("mem")) op_mem(); else if(IS("log")) op_log(); else if(IS("deny")) deny(); else if(IS("every")){ every=I(); opn=1; } else if(IS("sched")){ int t=(int)I(); unsigned long sd=(unsigned long)I(); int p=(int)I(); if(prt_config) prt_config(t,sd,p); else if(omp_set_num_threads) omp_set_num_threads(t); } else op_an(w); }

int main(int ac,char **av){
  (void)ac;(void)av; cx=&cx0;
#ifdef HX_PRT
  prt_region=on_region; prt_switch=par_switch;
#endif
  (void)ompsum; signal(SIGPIPE,SIG_IGN);
  int real=dup(1); char *ln=NULL; size_t lc=0; ssize_t k; char id[128]=""; char *scn=NULL; size_t sn=0, sc=0; int ncrash=0;
  int cpu= getenv("HX_CPU")?atoi(getenv("HX_CPU")):30;
  while((k=getline(&ln,&lc,stdin))>0){
    if(ln[0]=='S'&&ln[1]==' '){ sscanf(ln+2,"%100s",id); sn=0; continue; }
    if(ln[0]=='E'&&(ln[1]=='\n'||ln[1]==0)){
      if(ncrash>=4){ dprintf(real,"{\"id\":\"%s\",\"ev\":[],\"end\":\"skip\",\"sig\":0}\n",id); sn=0; continue; }
      int pp[2]; if(pipe(pp)) return 3; fflush(stdout);
      pid_t p=fork(); if(p<0) return 3;
      if(p==0){ close(pp[0]); outfd=pp[1]; int dn=open("/dev/null",O_WRONLY); dup2(dn,1); if(!getenv("HX_ERR")) dup2(dn,2); struct rlimit rl={(rlim_t)cpu,(rlim_t)cpu+2}; setrlimit(RLIMIT_CPU,&rl); alarm((unsigned)(40+3*cpu)); struct rlimit as={3UL<<30,3UL<<30}; if(!getenv("HX_NOAS")) setrlimit(RLIMIT_AS,&as); struct rlimit cr={0,0}; setrlimit(RLIMIT_CORE,&cr);
        char *q=scn; char *e=scn+sn; vmem_mode(1); while(q<e){ char *nl=memchr(q,'\n',(size_t)(e-q)); if(!nl) nl=e; *nl=0; line(q); q=nl+1; }
        flushout(); _exit(0); }
      close(pp[1]); dprintf(real,"{\"id\":\"%s\",\"ev\":[",id); char buf[65536]; ssize_t r; while((r=read(pp[0],buf,sizeof buf))>0){ char *b=buf; while(r>0){ ssize_t z=write(real,b,(size_t)r); if(z<=0) return 3; b+=z; r-=z; } } close(pp[0]);
      int st; waitpid(p,&st,0); int bad=!(WIFEXITED(st)&&WEXITSTATUS(st)==0); int sig=WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st); ncrash+= !bad?0:(sig==SIGXCPU||sig==SIGKILL||sig==SIGALRM)?2:1;
      dprintf(real,"],\"end\":\"%s\",\"sig\":%d}\n",bad?"crash":"ok",bad?sig:0); sn=0; continue; }
    if(sn+(size_t)k+1>sc){ sc=(sn+(size_t)k+1)*2; scn=(char*)__real_realloc(scn,sc); }
    memcpy(scn+sn,ln,(size_t)k); sn+=(size_t)k; }
  return 0; }
