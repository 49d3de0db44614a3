#pragma once
#include <cstddef>
#include <cstdint>
#include "ompstub/omp.h"
extern "C" {
int rk_spawn(void(*)(void*),void*); void rk_join(int); void rk_barrier(void*,uint64_t n); int rk_self(); void rk_point(); void rk_omp_procs(int);
}
#ifdef RK_SYMBOLIC
#include <pthread.h>
static inline uint64_t rk_take(uint64_t*p){ return __sync_fetch_and_add(p,1); } // the engine makes this one visible operation
static inline void rk_lock(pthread_mutex_t*m){ pthread_mutex_lock(m); } static inline void rk_unlock(pthread_mutex_t*m){ pthread_mutex_unlock(m); }
#else
#include <pthread.h>
extern "C" { uint64_t rk_take(uint64_t*); void rk_lock(pthread_mutex_t*); void rk_unlock(pthread_mutex_t*); }
#endif
