/* Declarations of the OpenMP runtime entry points, so that clang's front end can
   parse the sources (g++'s omp.h lives in gcc's private include directory). */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { unsigned char _x[4]; } omp_lock_t;
typedef enum omp_sched_t { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
extern void omp_set_num_threads(int);
extern int omp_get_num_threads(void);
extern int omp_get_max_threads(void);
extern int omp_get_thread_num(void);
extern int omp_get_num_procs(void);
extern int omp_in_parallel(void);
extern void omp_set_dynamic(int);
extern int omp_get_dynamic(void);
extern void omp_set_nested(int);
extern int omp_get_nested(void);
extern void omp_init_lock(omp_lock_t *);
extern void omp_destroy_lock(omp_lock_t *);
extern void omp_set_lock(omp_lock_t *);
extern void omp_unset_lock(omp_lock_t *);
extern int omp_test_lock(omp_lock_t *);
extern double omp_get_wtime(void);
extern double omp_get_wtick(void);
extern void omp_set_schedule(omp_sched_t, int);
extern int omp_get_level(void);
extern int omp_get_thread_limit(void);
extern void omp_set_max_active_levels(int);
extern int omp_get_active_level(void);
extern int omp_get_ancestor_thread_num(int);
extern int omp_get_team_size(int);
#ifdef __cplusplus
}
#endif
