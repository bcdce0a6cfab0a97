/* One thread, for builds without OpenMP (the sanitizers). */
#ifndef NOOMP_H
#define NOOMP_H
typedef int omp_lock_t; typedef int omp_nest_lock_t;
static inline int omp_get_thread_num(void){ return 0; } static inline int omp_get_num_threads(void){ return 1; } static inline int omp_get_max_threads(void){ return 1; }
static inline int omp_get_num_procs(void){ return 1; } static inline int omp_in_parallel(void){ return 0; } static inline void omp_set_num_threads(int n){ (void)n; }
static inline int omp_get_level(void){ return 0; } static inline void omp_set_dynamic(int n){ (void)n; } static inline int omp_get_dynamic(void){ return 0; } static inline double omp_get_wtime(void){ return 0; }
static inline void omp_init_lock(omp_lock_t *l){ (void)l; } static inline void omp_destroy_lock(omp_lock_t *l){ (void)l; } static inline void omp_set_lock(omp_lock_t *l){ (void)l; } static inline void omp_unset_lock(omp_lock_t *l){ (void)l; }
#endif
