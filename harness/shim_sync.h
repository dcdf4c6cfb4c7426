// Force-included before sync/*.cpp: threads, time and shared memory are played by the harness
// (fib.h), which schedules them deterministically.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/time.h>
extern "C" {
int vf_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int vf_mutex_destroy(pthread_mutex_t *);
int vf_mutex_lock(pthread_mutex_t *);
int vf_mutex_trylock(pthread_mutex_t *);
int vf_mutex_timedlock(pthread_mutex_t *, const struct timespec *);
int vf_mutex_unlock(pthread_mutex_t *);
int vf_mutexattr_init(pthread_mutexattr_t *);
int vf_mutexattr_destroy(pthread_mutexattr_t *);
int vf_mutexattr_setpshared(pthread_mutexattr_t *, int);
int vf_mutexattr_settype(pthread_mutexattr_t *, int);
int vf_cond_init(pthread_cond_t *, const pthread_condattr_t *);
int vf_cond_destroy(pthread_cond_t *);
int vf_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int vf_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
int vf_cond_signal(pthread_cond_t *);
int vf_cond_broadcast(pthread_cond_t *);
int vf_condattr_init(pthread_condattr_t *);
int vf_condattr_destroy(pthread_condattr_t *);
int vf_condattr_setpshared(pthread_condattr_t *, int);
int vf_condattr_setclock(pthread_condattr_t *, clockid_t);
pthread_t vf_self();
int vf_clock_gettime(clockid_t, struct timespec *);
int vf_gettimeofday(struct timeval *, void *);
int vf_usleep(useconds_t);
int vf_nanosleep(const struct timespec *, struct timespec *);
int vf_yield();
int vf_shm_open(const char *, int, mode_t);
int vf_shm_unlink(const char *);
int vf_ftruncate(int, off_t);
void *vf_mmap(void *, size_t, int, int, int, off_t);
int vf_munmap(void *, size_t);
int vf_close(int);
mode_t vf_umask(mode_t);
}
#define pthread_mutex_init vf_mutex_init
#define pthread_mutex_destroy vf_mutex_destroy
#define pthread_mutex_lock vf_mutex_lock
#define pthread_mutex_trylock vf_mutex_trylock
#define pthread_mutex_timedlock vf_mutex_timedlock
#define pthread_mutex_unlock vf_mutex_unlock
#define pthread_mutexattr_init vf_mutexattr_init
#define pthread_mutexattr_destroy vf_mutexattr_destroy
#define pthread_mutexattr_setpshared vf_mutexattr_setpshared
#define pthread_mutexattr_settype vf_mutexattr_settype
#define pthread_cond_init vf_cond_init
#define pthread_cond_destroy vf_cond_destroy
#define pthread_cond_wait vf_cond_wait
#define pthread_cond_timedwait vf_cond_timedwait
#define pthread_cond_signal vf_cond_signal
#define pthread_cond_broadcast vf_cond_broadcast
#define pthread_condattr_init vf_condattr_init
#define pthread_condattr_destroy vf_condattr_destroy
#define pthread_condattr_setpshared vf_condattr_setpshared
#define pthread_condattr_setclock vf_condattr_setclock
#define pthread_self vf_self
#define clock_gettime vf_clock_gettime
#define gettimeofday vf_gettimeofday
#define usleep vf_usleep
#define nanosleep vf_nanosleep
#define sched_yield vf_yield
#define pthread_yield vf_yield
#define shm_open vf_shm_open
#define shm_unlink vf_shm_unlink
#define ftruncate vf_ftruncate
#define mmap vf_mmap
#define munmap vf_munmap
#define close vf_close
#define umask vf_umask
