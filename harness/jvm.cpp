/* counts what the native code of the Java module allocates with new, and shows the counters of the checking allocator */
#include <jni.h>
#include <stdlib.h>
#include <new>
#include "vmem.h"
void *operator new(size_t n){ return malloc(n); }
void *operator new[](size_t n){ return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p,size_t) noexcept { free(p); }
void operator delete[](void *p,size_t) noexcept { free(p); }
extern "C" JNIEXPORT void JNICALL Java_BindMain_mem(JNIEnv *env, jclass, jlongArray a){
  vmem_stats_t s; vmem_get(&s); jlong v[3]={s.live,s.badfree,s.overrun}; env->SetLongArrayRegion(a,0,3,v); }
