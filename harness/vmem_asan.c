/* Stand-ins for the checking allocator in sanitizer builds. */
#include "vmem.h"
#include <string.h>
#include <stdlib.h>
void *__real_malloc(size_t n){ return malloc(n); }
void *__real_realloc(void *p,size_t n){ return realloc(p,n); }
void __real_free(void *p){ free(p); }
void vmem_mode(int lib){ (void)lib; }
int vmem_owned(const void *p){ return p!=NULL; }
void vmem_fail_at(long n,int on){ (void)n; (void)on; }
long vmem_denied(void){ return 0; }
void vmem_get(vmem_stats_t *s){ memset(s,0,sizeof *s); }
