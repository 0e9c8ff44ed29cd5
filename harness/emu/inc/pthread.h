#pragma once
#include <bits/pthreadtypes.h>
#define PTHREAD_MUTEX_INITIALIZER 0
#define PTHREAD_ONCE_INIT 0
static inline int pthread_mutex_init(pthread_mutex_t *m, const void *a) { *m = 0; return 0; }
static inline int pthread_mutex_lock(pthread_mutex_t *m) { if (*m) __builtin_trap(); *m = 1; return 0; }
static inline int pthread_mutex_trylock(pthread_mutex_t *m) { if (*m) return 16; *m = 1; return 0; }
static inline int pthread_mutex_unlock(pthread_mutex_t *m) { if (!*m) __builtin_trap(); *m = 0; return 0; }
static inline int pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
