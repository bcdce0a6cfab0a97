/* Points on a line in large numbers: line N M MP SAMPLES SEED
 * point i lies at (i*M) mod N, M and N without common factor. Writes the distances of sampled pairs, always of those
 * at the ends of the storage, and the core distances of sampled points, one JSON object. */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include "hdbscan/hdbscan.h"
static unsigned long long st; static unsigned long rnd(void){ st^=st<<13; st^=st>>7; st^=st<<17; return (unsigned long)(st>>11); }
int main(int c,char **v){
  long n=atol(v[1]),m=atol(v[2]),mp=atol(v[3]),s=atol(v[4]); st=88172645463325252ULL^(unsigned long long)(atol(v[5])*2654435761UL);
  float *x=(float*)malloc((size_t)n*sizeof(float)); if(!x) return 3; for(long i=0;i<n;i++) x[i]=(float)((i*m)%n);
  distance d; distance_init(&d,_EUCLIDEAN,H_FLOAT); distance_compute(&d,x,(index_t)n,1,(index_t)(mp-1));
  printf("{\"n\":%ld,\"m\":%ld,\"mp\":%ld,\"q\":[",n,m,mp);
  long e[]={0,1,2,n/2,n-3,n-2,n-1}; int first=1; long ne=(long)(sizeof e/sizeof *e); for(long k=0;k<ne;k++) e[k]= e[k]<0? 0 : e[k]>=n? n-1 : e[k];
  for(long k=0;k<ne*ne+s;k++){ long i,j; if(k<ne*ne){ i=e[k/ne]; j=e[k%ne]; } else { i=(long)(rnd()%(unsigned long)n); j= k%3? (long)(rnd()%(unsigned long)n) : (i+1)%n; }
    printf("%s[%ld,%ld,%.9g]",first?"":",",i,j,(double)distance_get(&d,(index_t)i,(index_t)j)); first=0; }
  printf("],\"c\":["); first=1;
  for(long k=0;k<ne+s/4;k++){ long i= k<ne? e[k] : (long)(rnd()%(unsigned long)n); printf("%s[%ld,%.9g]",first?"":",",i,(double)d.coreDistances[i]); first=0; }
  printf("]}\n"); distance_clean(&d); free(x); return 0; }
