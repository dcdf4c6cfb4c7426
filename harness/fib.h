// Deterministic scheduler: threads are fibers, every synchronisation call and every plain memory
// access of the code under test (compiled with -fsanitize=thread, whose hooks are defined here) is a
// possible switch point.  Virtual clock, virtual POSIX shared memory, several virtual processes.
#pragma once
#include "vh.h"
#include <pthread.h>
#include <sched.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <ucontext.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <functional>
#include <unordered_set>
extern "C" void __sanitizer_start_switch_fiber(void **, const void *, size_t) __attribute__((weak));
extern "C" void __sanitizer_finish_switch_fiber(void *, const void **, size_t *) __attribute__((weak));
extern "C" void *__asan_region_is_poisoned(void *, size_t) __attribute__((weak));

namespace fib {
enum St { READY, MUTEX, COND, SLEEP, DONE };
static const size_t STK = 128 * 1024;
struct Fiber
{
	ucontext_t ctx; char *stack; int id, proc; St st; uint32_t wobj; uint64_t timer; int wres; std::function<void()> fn; void *fake; bool pidle, fclk, fshm; int self;
};
static std::vector<Fiber *> fs; static Fiber *cur; static ucontext_t mainctx; static void *mainfake; static const void *mainbot; static size_t mainsz;
static uint64_t vnow;            // ns
static uint64_t vbase, vnext;   // vnext: the time of the next timer when a run ends early, 0 = none
static uint32_t nextid; static long steps, maxsteps; static bool active, stuck, nested;
// ------------------------------------------------ choices
static bool dfs; static std::vector<std::pair<int, int>> path; static size_t ppos; static int preempt, maxpreempt;
static Rng *rng; static int p_sync = 4, p_mem = 0, p_spur = 0, p_lag = 0; static std::function<void()> onlag;     // 1/p chances, 0 = never
static int choose(int n)
{
	if (n <= 1) return 0;
	if (!dfs) return (int)(*rng)((size_t)n);
	if (ppos == path.size()) path.push_back({0, n});
	if (path[ppos].second != n) { fprintf(stderr, "fib: replay mismatch\n"); _exit(98); }
	return path[ppos++].first;
}
static bool nextpath() { while (!path.empty() && path.back().first + 1 >= path.back().second) path.pop_back(); if (path.empty()) return false; path.back().first++; return true; }
// ------------------------------------------------ switching
static void tosched()
{
	Fiber *f = cur;
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(f->st == DONE ? NULL : &f->fake, mainbot, mainsz);
	swapcontext(&f->ctx, &mainctx);
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(f->fake, &mainbot, &mainsz);
}
static bool runnable(Fiber *f) { return f->st == READY || ((f->st == COND || f->st == MUTEX || f->st == SLEEP) && f->timer && f->timer <= vnow); }
static Fiber *forced;
static void yield(bool mem = false)
{
	if (!active || !cur || nested) return;
	if (++steps > maxsteps) { stuck = true; cur->st = SLEEP; cur->timer = 0; tosched(); }
	if (dfs)
	{
		if (mem && !p_mem) return;
		if (preempt >= maxpreempt) return;
		std::vector<Fiber *> o; for (auto f : fs) if (f != cur && runnable(f)) o.push_back(f);
		if (o.empty()) return;
		int c = choose((int)o.size() + 1);
		if (!c) return;
		preempt++; forced = o[(size_t)c - 1]; tosched(); return;
	}
	int p = mem ? p_mem : p_sync;
	// the thread is held up while the clock goes on
	if (p_lag && !mem && (*rng)((size_t)p_lag) == 0) { static const int ms[] = {1, 2, 3, 7, 20, 1000}; vnow += (uint64_t)ms[(*rng)(6)] * 1000000ull + ((*rng)(2) ? 0 : (*rng)(1000) * 1000ull); onlag(); tosched(); return; }
	if (p && (*rng)((size_t)p) == 0) tosched();
}
static void trampoline() { if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(NULL, &mainbot, &mainsz); cur->fn(); cur->st = DONE; tosched(); abort(); }
static std::vector<char *> stkpool; static std::vector<Fiber *> graveyard;
static Fiber *spawn(int id, int proc, std::function<void()> fn)
{
	Fiber *f = new Fiber(); f->id = id; f->proc = proc; f->st = READY; f->timer = 0; f->fn = fn; f->fake = NULL; f->wobj = 0; f->wres = 0; f->pidle = f->fclk = f->fshm = false; f->self = 0; for (auto g : fs) if (g->proc == proc) f->self++;
	if (stkpool.empty()) f->stack = (char *)mmap(NULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	else { f->stack = stkpool.back(); stkpool.pop_back(); }
	getcontext(&f->ctx); f->ctx.uc_stack.ss_sp = f->stack; f->ctx.uc_stack.ss_size = STK; f->ctx.uc_link = NULL;
	makecontext(&f->ctx, trampoline, 0); fs.push_back(f); return f;
}
static void resume(Fiber *f)
{
	if (f->st != READY) { f->wres = f->st == SLEEP ? 0 : ETIMEDOUT; f->st = READY; f->timer = 0; f->wobj = 0; }
	cur = f;
	if (__sanitizer_start_switch_fiber) __sanitizer_start_switch_fiber(&mainfake, f->stack, STK);
	swapcontext(&mainctx, &f->ctx);
	if (__sanitizer_finish_switch_fiber) __sanitizer_finish_switch_fiber(mainfake, NULL, NULL);
	cur = NULL;
}
// Runs until every fiber is done or nothing can run any more.  quiet(): called when nothing is runnable
// at the current time; tick(): after the clock moved.  Returns true if all fibers finished.
static bool run(std::function<void()> quiet, std::function<void()> tick, uint64_t horizon)
{
	active = true; Fiber *last = NULL; uint64_t start = vnow;
	for (;;)
	{
		if (stuck) { active = false; return false; }
		std::vector<Fiber *> o; bool alldone = true;
		for (auto f : fs) { if (f->st != DONE) alldone = false; if (runnable(f)) o.push_back(f); }
		if (alldone) { active = false; return true; }
		if (o.empty())
		{
			quiet();
			uint64_t t = 0; for (auto f : fs) if (f->st != DONE && f->timer && (!t || f->timer < t)) t = f->timer;
			if (!t || t - start > horizon) { vnext = t; active = false; return false; }
			vnow = t; tick(); continue;
		}
		if (!dfs && p_spur && (*rng)((size_t)p_spur) == 0)
		{
			std::vector<Fiber *> w; for (auto f : fs) if (f->st == COND) w.push_back(f);
			if (!w.empty()) { Fiber *f = w[(*rng)(w.size())]; f->st = READY; f->wres = 0; f->timer = 0; f->wobj = 0; continue; }
		}
		Fiber *f = NULL;
		if (forced) { f = forced; forced = NULL; if (!runnable(f)) f = NULL; }
		if (!f) f = o[(size_t)choose((int)o.size())];
		last = f; resume(f);
		if (f->st == DONE) { }
	}
	(void)last;
}
static void reset()
{
	for (auto f : fs) { stkpool.push_back(f->stack); delete f; }
	fs.clear(); cur = NULL; nextid = 1; steps = 0; maxsteps = 60000; stuck = false; forced = NULL; preempt = 0; ppos = 0; nested = false;
}
[[noreturn]] static void misuse(const char *what) { vh_pend("%s", what); fprintf(stderr, "misuse: %s\n", what); _exit(77); }
// ------------------------------------------------ virtual shared memory
struct Map { size_t len; int proc; };
static std::map<std::string, int> shm; static std::map<char *, Map> maps; static std::set<int> fds;
static void shmreset() { for (auto &m : maps) syscall(SYS_munmap, m.first, m.second.len); maps.clear(); for (auto f : fds) syscall(SYS_close, f); fds.clear(); for (auto &s : shm) syscall(SYS_close, s.second); shm.clear(); }
static bool inmap(const void *p) { auto it = maps.upper_bound((char *)p); if (it == maps.begin()) return false; --it; return (char *)p < it->first + it->second.len; }
struct VM { uint32_t magic, id, pshared; int32_t owner; uint32_t type, depth, full; };
struct VC { uint32_t magic, id, pshared, full; };
// An initialised object owns all its bytes: whatever else is written there would damage a real one.
static void fill(void *p, size_t used, size_t size) { memset((char *)p + used, 0xC5, size - used); }
static void intact(const void *p, size_t used, size_t size) { for (size_t k = used; k < size; k++) if (((const unsigned char *)p)[k] != 0xC5) misuse("the memory of a mutex or condition variable was overwritten"); }
static const uint32_t MM = 0x4D55544Du, MC = 0x434F4E44u;
}
using namespace fib;
extern "C" {
static int vf_proc() { return cur ? cur->proc : 0; }
static VM *vm(pthread_mutex_t *m) { VM v; memcpy(&v, m, sizeof v); if (v.magic != MM) { if (v.magic == 0) { v.magic = MM; v.id = nextid++; v.pshared = 0; v.owner = 0; v.type = 0; v.depth = 0; v.full = 0; memcpy(m, &v, sizeof v); } else misuse("use of an uninitialised or destroyed mutex"); } else if (v.full) intact(m, sizeof v, sizeof *m); return (VM *)m; }
static VC *vc(pthread_cond_t *c) { VC v; memcpy(&v, c, sizeof v); if (v.magic != MC) { if (v.magic == 0) { v.magic = MC; v.id = nextid++; v.pshared = 0; v.full = 0; memcpy(c, &v, sizeof v); } else misuse("use of an uninitialised or destroyed condition variable"); } else if (v.full) intact(c, sizeof v, sizeof *c); return (VC *)c; }
int vf_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int vf_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int vf_mutexattr_setpshared(pthread_mutexattr_t *a, int v) { ((unsigned char *)a)[0] = v == PTHREAD_PROCESS_SHARED; return 0; }
int vf_mutexattr_settype(pthread_mutexattr_t *a, int v) { ((unsigned char *)a)[1] = (unsigned char)v; return 0; }
int vf_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { yield(); VM v = {MM, nextid++, a ? ((const unsigned char *)a)[0] : 0u, 0, a ? ((const unsigned char *)a)[1] : 0u, 0, 1}; memcpy(m, &v, sizeof v); fill(m, sizeof v, sizeof *m); return 0; }
int vf_mutex_destroy(pthread_mutex_t *m) { yield(); VM *v = vm(m); if (v->owner) misuse("destroying a locked mutex"); v->magic = 0xDEADDEADu; return 0; }
static void wakemutex(VM *v, bool shared) { for (auto f : fs) if (f->st == MUTEX && f->wobj == v->id && (!shared || v->pshared || f->proc == vf_proc())) { f->st = READY; f->timer = 0; f->wobj = 0; f->wres = 0; } }
static int acquire(pthread_mutex_t *m, uint64_t timer)
{
	VM *v = vm(m);
	if (!cur) { if (v->owner) misuse("lock outside"); v->owner = 9999; return 0; }
	if (v->owner == cur->id + 1 && v->type == PTHREAD_MUTEX_RECURSIVE) { v->depth++; return 0; }
	if (v->owner == cur->id + 1 && v->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
	while (v->owner)
	{
		cur->st = MUTEX; cur->wobj = v->id; cur->timer = timer; cur->wres = 0; tosched();
		v = vm(m);
		if (cur->wres == ETIMEDOUT && v->owner) return ETIMEDOUT;
	}
	v->owner = cur->id + 1; v->depth = 1; return 0;
}
int vf_mutex_lock(pthread_mutex_t *m) { yield(); return acquire(m, 0); }
static uint64_t abst(const struct timespec *t) { if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return 0; uint64_t x = (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec; return x <= vbase ? 1 : x - vbase; }
int vf_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) { yield(); uint64_t x = abst(t); if (!x) return EINVAL; return acquire(m, x); }
int vf_mutex_trylock(pthread_mutex_t *m) { yield(); VM *v = vm(m); if (v->owner) { if (cur && v->owner == cur->id + 1 && v->type == PTHREAD_MUTEX_RECURSIVE) { v->depth++; return 0; } return EBUSY; } v->owner = cur ? cur->id + 1 : 9999; v->depth = 1; return 0; }
int vf_mutex_unlock(pthread_mutex_t *m) { yield(); VM *v = vm(m); if (v->type == PTHREAD_MUTEX_RECURSIVE && v->depth > 1) { v->depth--; return 0; } v->owner = 0; v->depth = 0; wakemutex(v, inmap(m)); return 0; }
int vf_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int vf_condattr_destroy(pthread_condattr_t *) { return 0; }
int vf_condattr_setpshared(pthread_condattr_t *a, int v) { ((unsigned char *)a)[0] = v == PTHREAD_PROCESS_SHARED; return 0; }
int vf_condattr_setclock(pthread_condattr_t *, clockid_t) { return 0; }
int vf_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { yield(); VC v = {MC, nextid++, a ? ((const unsigned char *)a)[0] : 0u, 1}; memcpy(c, &v, sizeof v); fill(c, sizeof v, sizeof *c); return 0; }
int vf_cond_destroy(pthread_cond_t *c) { yield(); VC *v = vc(c); for (auto f : fs) if (f->st == COND && f->wobj == v->id) misuse("destroying a condition variable with waiters"); v->magic = 0xDEADDEADu; return 0; }
static int condwait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t timer)
{
	yield(); VC *v = vc(c); VM *w = vm(m);
	if (!cur) misuse("wait outside");
	if (w->owner != cur->id + 1) return EPERM;
	w->owner = 0; wakemutex(w, inmap(m));
	cur->st = COND; cur->wobj = v->id; cur->timer = timer; cur->wres = 0; cur->pidle = inmap(c) && !v->pshared;
	tosched();
	int r = cur->wres; cur->wres = 0;
	acquire(m, 0);
	return r;
}
int vf_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condwait(c, m, 0); }
int vf_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { uint64_t x = abst(t); if (!x) return EINVAL; return condwait(c, m, x); }
static std::vector<Fiber *> waiters(VC *v) { std::vector<Fiber *> o; for (auto f : fs) if (f->st == COND && f->wobj == v->id && (!f->pidle || f->proc == vf_proc())) o.push_back(f); return o; }
int vf_cond_signal(pthread_cond_t *c)
{
	yield(); VC *v = vc(c); auto o = waiters(v); if (o.empty()) return 0;
	Fiber *f = o[(size_t)choose((int)o.size())];
	// a wait that is just timing out may consume the signal and still report the timeout (POSIX)
	int r = f->timer && f->timer <= vnow ? (choose(2) ? ETIMEDOUT : 0) : 0;
	f->st = READY; f->timer = 0; f->wobj = 0; f->wres = r; return 0;
}
int vf_cond_broadcast(pthread_cond_t *c) { yield(); VC *v = vc(c); for (auto f : waiters(v)) { f->st = READY; f->timer = 0; f->wobj = 0; f->wres = 0; } return 0; }
pthread_t vf_self() { return (pthread_t)(cur ? 1000 + cur->self : 999);   // the n-th thread of every process has the same identifier
 }
int vf_clock_gettime(clockid_t, struct timespec *t) { yield(); if (cur && cur->fclk) { errno = EINVAL; return -1; } uint64_t x = vbase + vnow; t->tv_sec = (time_t)(x / 1000000000ull); t->tv_nsec = (long)(x % 1000000000ull); return 0; }
int vf_gettimeofday(struct timeval *t, void *) { yield(); uint64_t x = vbase + vnow; t->tv_sec = (time_t)(x / 1000000000ull); t->tv_usec = (long)(x % 1000000000ull / 1000); return 0; }
static void vsleep(uint64_t ns) { if (!cur) return; if (++steps > maxsteps) { stuck = true; } cur->st = SLEEP; cur->timer = vnow + (ns ? ns : 1000); tosched(); }
int vf_usleep(useconds_t u) { vsleep((uint64_t)u * 1000); return 0; }
int vf_nanosleep(const struct timespec *t, struct timespec *) { vsleep((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec); return 0; }
int vf_yield() { if (cur) tosched(); return 0; }
int vf_shm_open(const char *n, int fl, mode_t)
{
	yield(); if (cur && cur->fshm) { errno = EMFILE; return -1; }
	size_t len = strlen(n); if (len > 255 || n[0] != '/' || strchr(n + 1, '/')) { errno = EINVAL; return -1; }
	auto it = shm.find(n);
	if (it == shm.end()) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } int d = (int)syscall(SYS_memfd_create, "v", 0); it = shm.insert({n, d}).first; }
	else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
	int d = (int)syscall(SYS_dup, it->second); fds.insert(d);
	if (fl & O_TRUNC) syscall(SYS_ftruncate, d, 0L);
	return d;
}
int vf_shm_unlink(const char *n) { yield(); auto it = shm.find(n); if (it == shm.end()) { errno = ENOENT; return -1; } syscall(SYS_close, it->second); shm.erase(it); return 0; }
int vf_ftruncate(int d, off_t n) { yield(); return (int)syscall(SYS_ftruncate, d, n); }
void *vf_mmap(void *a, size_t n, int p, int f, int d, off_t o) { yield(); char *r = (char *)syscall(SYS_mmap, a, n, p, f, d, o); if (r != MAP_FAILED && d >= 0) maps[r] = {n, vf_proc()}; return r; }
int vf_munmap(void *a, size_t n)
{
	yield(); auto it = maps.find((char *)a); if (it == maps.end()) misuse("unmapping something that is not mapped");
	size_t pg = 4096; if ((it->second.len + pg - 1) / pg != (n + pg - 1) / pg) misuse("unmapping the wrong size");
	maps.erase(it); return (int)syscall(SYS_munmap, a, n);
}
int vf_close(int d) { yield(); fds.erase(d); return (int)syscall(SYS_close, d); }
mode_t vf_umask(mode_t) { return 022; }
// ------------------------------------------------ hooks of -fsanitize=thread
static inline void memacc(void *p, size_t n)
{
	if (!cur || nested) return;
	if ((char *)p >= cur->stack && (char *)p < cur->stack + STK) return;
	if (__asan_region_is_poisoned && __asan_region_is_poisoned(p, n)) misuse("access outside of an object");
	yield(true);
}
#define ACC(k) void __tsan_read##k(void *p) { memacc(p, k); } void __tsan_write##k(void *p) { memacc(p, k); } void __tsan_volatile_read##k(void *p) { memacc(p, k); } void __tsan_volatile_write##k(void *p) { memacc(p, k); } \
	void __tsan_unaligned_read##k(void *p) { memacc(p, k); } void __tsan_unaligned_write##k(void *p) { memacc(p, k); } void __tsan_unaligned_volatile_read##k(void *p) { memacc(p, k); } void __tsan_unaligned_volatile_write##k(void *p) { memacc(p, k); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *p, size_t n) { memacc(p, n); }
void __tsan_write_range(void *p, size_t n) { memacc(p, n); }
void __tsan_vptr_update(void **p, void *) { memacc(p, 8); }
void __tsan_vptr_read(void **p) { memacc(p, 8); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
#define ATOM(b, T) \
	T __tsan_atomic##b##_load(const volatile T *p, int) { memacc((void *)p, sizeof(T)); return *p; } \
	void __tsan_atomic##b##_store(volatile T *p, T v, int) { memacc((void *)p, sizeof(T)); *p = v; } \
	T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { memacc((void *)p, sizeof(T)); T o = *p; *p = v; return o; } \
	T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { memacc((void *)p, sizeof(T)); T o = *p; *p = (T)(o + v); return o; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { memacc((void *)p, sizeof(T)); T o = *p; *p = (T)(o - v); return o; } \
	T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { memacc((void *)p, sizeof(T)); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { memacc((void *)p, sizeof(T)); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { memacc((void *)p, sizeof(T)); T o = *p; *p = o ^ v; return o; } \
	bool __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { memacc((void *)p, sizeof(T)); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
	bool __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { memacc((void *)p, sizeof(T)); if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int, int) { memacc((void *)p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
