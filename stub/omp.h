/* Declarations only: lets clang parse MDOODZ with OpenMP enabled. Nothing here is ever linked or run. */
#ifndef VERIF_STUB_OMP_H
#define VERIF_STUB_OMP_H
typedef struct omp_lock_t { void *p; } omp_lock_t;
extern int    omp_get_thread_num(void);
extern int    omp_get_num_threads(void);
extern int    omp_get_max_threads(void);
extern int    omp_get_num_procs(void);
extern void   omp_set_num_threads(int);
extern void   omp_set_nested(int);
extern int    omp_in_parallel(void);
extern double omp_get_wtime(void);
extern double omp_get_wtick(void);
extern void   omp_init_lock(omp_lock_t *);
extern void   omp_set_lock(omp_lock_t *);
extern void   omp_unset_lock(omp_lock_t *);
extern void   omp_destroy_lock(omp_lock_t *);
#endif
