// Declarations only: lets clang parse OpenMP code without a clang OpenMP runtime installed.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void* p; } omp_lock_t;
typedef struct { void* p; } omp_nest_lock_t;
typedef enum { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
typedef enum { omp_proc_bind_false = 0, omp_proc_bind_true = 1 } omp_proc_bind_t;
void omp_set_num_threads(int); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void);
int omp_get_num_procs(void); int omp_in_parallel(void); void omp_set_dynamic(int); int omp_get_dynamic(void);
void omp_set_nested(int); int omp_get_nested(void);
void omp_set_max_active_levels(int); int omp_get_max_active_levels(void); int omp_get_level(void); int omp_get_active_level(void);
int omp_get_ancestor_thread_num(int); int omp_get_team_size(int); int omp_get_thread_limit(void);
void omp_set_schedule(omp_sched_t, int); void omp_get_schedule(omp_sched_t*, int*); omp_proc_bind_t omp_get_proc_bind(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
double omp_get_wtime(void); double omp_get_wtick(void);
void omp_set_default_device(int); int omp_get_default_device(void); int omp_get_num_devices(void); int omp_get_initial_device(void); int omp_is_initial_device(void);
int omp_get_num_teams(void); int omp_get_team_num(void); int omp_get_device_num(void);
void* omp_target_alloc(size_t, int); void omp_target_free(void*, int); int omp_target_is_present(const void*, int);
int omp_target_memcpy(void*, const void*, size_t, size_t, size_t, int, int);
int omp_target_associate_ptr(const void*, const void*, size_t, size_t, int); int omp_target_disassociate_ptr(const void*, int);
void* omp_get_mapped_ptr(const void*, int);
int omp_get_num_places(void); int omp_get_place_num(void); int omp_get_supported_active_levels(void);
#ifdef __cplusplus
}
#endif
