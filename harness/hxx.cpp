#include <new>
#include <cstring>
#include <cstdio>
#include "hdbscan/hdbscan.hpp"
#include "hxx.h"
using namespace clustering;
typedef map<label_t,distance_values> dm_t;
extern "C" {
size_t xx_size(void){ return sizeof(hdbscan); }
void *xx_new(long mp,void *where,int dflt){ if(where) return dflt? new(where) hdbscan() : new(where) hdbscan((index_t)mp); return dflt? new hdbscan() : new hdbscan((index_t)mp); }
void xx_run(void *h,void *d,long r,long c,int rw,int t){ ((hdbscan*)h)->run(d,(index_t)r,(index_t)c,rw?TRUE:FALSE,(index_t)t); }
void xx_rerun(void *h,long mp){ ((hdbscan*)h)->reRun((index_t)mp); }
void xx_mst(void *h){ ((hdbscan*)h)->constructMST(); }
void xx_hier(void *h,int c,void *nl,void *lc){ ((hdbscan*)h)->computeHierarchyAndClusterTree(c,(distance_t*)nl,(label_t*)lc); }
void xx_prom(void *h,int inf){ ((hdbscan*)h)->findProminentClusters(inf); }
void xx_scores(void *h,void *nl,void *lc,int inf){ ((hdbscan*)h)->calculateOutlierScores((distance_t*)nl,(label_t*)lc,inf); }
void xx_clean(void *h){ ((hdbscan*)h)->clean(); }
void xx_delete(void *h){ delete (hdbscan*)h; }
void xx_end(void *h){ ((hdbscan*)h)->~hdbscan(); }
int xx_inf(void *h){ return ((hdbscan*)h)->propagateTree()!=0; }
void *xx_cmap(void *l,long b,long e){ return new map_t(createClusterMap((label_t*)l,(index_t)b,(index_t)e)); }
long xx_cmap_size(void *m){ return (long)((map_t*)m)->size(); }
long xx_cmap_at(void *m,long i,long *label,long j){ map_t::iterator it=((map_t*)m)->begin(); while(i--) ++it; *label= j<0? (long)it->first : (long)it->second[(size_t)j]; return (long)it->second.size(); }
void xx_cmap_free(void *m){ delete (map_t*)m; }
void *xx_minmax(void *h,void *m){ return new dm_t(getMinMaxDistances(*(hdbscan*)h,*(map_t*)m)); }
void *xx_mkdm(void){ return new dm_t(); }
void xx_dm_put(void *d,long k,const double *v){ distance_values x; x.min_cr=(distance_t)v[0]; x.max_cr=(distance_t)v[1]; x.min_dr=(distance_t)v[2]; x.max_dr=(distance_t)v[3]; x.cr_confidence=(distance_t)v[4]; x.dr_confidence=(distance_t)v[5]; (*(dm_t*)d)[(label_t)k]=x; }
long xx_dm_size(void *d){ return (long)((dm_t*)d)->size(); }
long xx_dm_at(void *d,long i,double *v){ dm_t::iterator it=((dm_t*)d)->begin(); while(i--) ++it; const distance_values &x=it->second; v[0]=x.min_cr; v[1]=x.max_cr; v[2]=x.min_dr; v[3]=x.max_dr; v[4]=x.cr_confidence; v[5]=x.dr_confidence; return (long)it->first; }
void xx_dm_free(void *d){ delete (dm_t*)d; }
void xx_stats(void *d,void *s){ calculateStats(*(dm_t*)d,*(clustering_stats*)s); }
int xx_analyse(void *s){ return analyseStats(*(clustering_stats*)s); }
long xx_sort(const char *w,void *m,long *io,long n){ vector<label_t> v; for(long i=0;i<n;i++) v.push_back((label_t)io[i]);
  if(!strcmp(w,"len")) sortByLength(*(map_t*)m,v); else sortBySimilarity(*(dm_t*)m,v,!strcmp(w,"sim0")?CORE_DISTANCE_TYPE:INTRA_DISTANCE_TYPE);
  for(size_t i=0;i<v.size()&&i<8192;i++) io[i]=(long)v[i]; return (long)v.size(); }
void xx_qsort(long n,long *l,double *d){ vector<label_t> a; vector<distance_t> b; for(long i=0;i<n;i++){ a.push_back((label_t)l[i]); b.push_back((distance_t)d[i]); } quickSort(a,b,0,(index_t)(n-1)); for(long i=0;i<n;i++){ l[i]=(long)a[i]; d[i]=b[i]; } }
void xx_print(const char *w,void *p){ if(!strcmp(w,"cmap")) printClusterMap(*(map_t*)p); else if(!strcmp(w,"csizes")) printClusterSizes(*(map_t*)p); else if(!strcmp(w,"dmap")) printDistanceMap(*(dm_t*)p); else if(!strcmp(w,"stats")) printStats(*(clustering_stats*)p); fflush(stdout); }
void *xx_dnew(void *at,int t,int how){ if(!at) at=::operator new(sizeof(Distance)); if(how=='0') return new(at) Distance(); if(how=='1') return new(at) Distance(_EUCLIDEAN); return new(at) Distance(_EUCLIDEAN,(enum HTYPES)t); }
void xx_dcores(void *d,long nn){ ((Distance*)d)->getCoreDistances((index_t)nn); }
void xx_ddel(void *d,int placed){ if(placed) ((Distance*)d)->~Distance(); else delete (Distance*)d; }
void *xx_gnew(void){ return new UndirectedGraph(); }
void xx_gdel(void *g){ delete (UndirectedGraph*)g; }
}
