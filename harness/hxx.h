/* The C++ interface of the library, for the interpreter of scenarios (hx.c built with -DHX_CPP). */
#ifdef __cplusplus
extern "C" {
#endif
void *xx_new(long mp,void *where,int dflt); size_t xx_size(void);
void xx_run(void*,void*,long,long,int,int); void xx_mst(void*); void xx_hier(void*,int,void*,void*); void xx_prom(void*,int); void xx_scores(void*,void*,void*,int);
void xx_rerun(void*,long); void xx_clean(void*); void xx_delete(void*); void xx_end(void*); int xx_inf(void*);
void *xx_cmap(void *labels,long b,long e); long xx_cmap_size(void*); long xx_cmap_at(void*,long i,long *label,long j); /* size of group i; label; j<0 or index j in *label */
void xx_cmap_free(void*);
void *xx_minmax(void*,void*); void *xx_mkdm(void); void xx_dm_put(void*,long,const double*); long xx_dm_size(void*); long xx_dm_at(void*,long,double*); void xx_dm_free(void*);
void xx_stats(void*,void*); int xx_analyse(void*);
long xx_sort(const char *what,void *map,long *io,long n);
void xx_qsort(long n,long *l,double *d);
void *xx_dnew(void *at,int type,int how); void xx_dcores(void*,long); void xx_ddel(void*,int placed);
void *xx_gnew(void); void xx_gdel(void*);
void xx_print(const char *what,void *p);
#ifdef __cplusplus
}
#endif
