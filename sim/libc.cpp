// clersim libc layer: threads, locks, clocks and the C++ runtime's helpers, all simulated.
#include "internal.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <dlfcn.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cstdarg>
#include <random>
#include <new>

using namespace sim;
#define REAL(ret, name, ...) \
    typedef ret (*name##_fnptr)(__VA_ARGS__); \
    static name##_fnptr real_##name() { static name##_fnptr f = nullptr; if (!f) f = (name##_fnptr)dlsym(RTLD_NEXT, #name); return f; }

extern "C" char __libc_single_threaded;
extern "C" void sim_libc_init() { __libc_single_threaded = 0; }

// ------------------------------------------------------------------ synchronisation objects
namespace {
struct Mtx { int owner = -1; int rec = 0; VC vc; int readers = 0; u64 rmask = 0; u32 waiters = 0; };
struct Cond { VC vc; };
template <class V> struct Tab {
    std::unordered_map<uptr, V*> m;
    V& get(const void* p) { V*& v = m[(uptr)p]; if (!v) { v = (V*)calloc(1, sizeof(V)); new (v) V; v->vc.clear(); } return *v; }
    void drop(const void* p) { m.erase((uptr)p); }
};
Tab<Mtx>& mtab() { static auto* t = new Tab<Mtx>; return *t; }
Tab<Mtx>& rwtab() { static auto* t = new Tab<Mtx>; return *t; }
Tab<Mtx>& stab() { static auto* t = new Tab<Mtx>; return *t; }
constexpr i64 WALL_BASE = 1735689600ll * 1000000000ll;   // 2025-01-01 00:00:00 UTC

u64 abs_from_ts(const struct timespec* ts, bool wall) {
    i64 t = (i64)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (wall) t -= WALL_BASE + g.wall_off;
    if (t < 1) t = 1;
    return (u64)t;
}
Mtx& mget(pthread_mutex_t* m) {
    Mtx& x = mtab().get(m);
    if (x.owner >= 0 && m->__data.__lock == 0) { x.owner = -1; x.rec = 0; x.vc.clear(); }   // re-initialised storage
    return x;
}
int mlock(pthread_mutex_t* m, u64 deadline, bool quiet_point = false) {
    if (!quiet_point) sched_point(20);
    Rt r;
    for (;;) {
        Mtx& x = mget(m);
        int me = g.cur->tid;
        if (x.owner == me) {
            int kind = m->__data.__kind & 3;
            if (kind == PTHREAD_MUTEX_RECURSIVE) { x.rec++; return 0; }
            if (kind == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        } else if (x.owner < 0) {
            x.owner = me; x.rec = 1; m->__data.__lock = 1;
            vc_acquire_from(x.vc);
            return 0;
        }
        block_current("mutex lock", m, deadline);
        if (g.cur->timed_out) return ETIMEDOUT;
    }
}
int munlock(pthread_mutex_t* m) {
    Rt r;
    Mtx& x = mget(m);
    if (x.owner != g.cur->tid) {
        if ((m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EPERM;
        fail("mutex-misuse", "T%d(%s) unlocks a mutex it does not hold (owner T%d)", g.cur->tid, g.cur->name, x.owner);
    }
    if (--x.rec > 0) return 0;
    x.owner = -1; m->__data.__lock = 0;
    vc_release_to(x.vc);
    wake_n(m, 1);
    return 0;
}
}  // namespace

REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_mutex_init, pthread_mutex_t*, const pthread_mutexattr_t*)
REAL(int, pthread_mutex_destroy, pthread_mutex_t*)
SIM_EXPORT int pthread_mutex_lock(pthread_mutex_t* m) { if (!live()) return real_pthread_mutex_lock()(m); return mlock(m, 0, g.cur->quiet > 0); }
SIM_EXPORT int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!live()) return real_pthread_mutex_trylock()(m);
    if (on()) sched_point(21);
    Rt r; Mtx& x = mget(m);
    if (x.owner == g.cur->tid && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.rec++; return 0; }
    if (x.owner >= 0) return EBUSY;
    x.owner = g.cur->tid; x.rec = 1; m->__data.__lock = 1; vc_acquire_from(x.vc);
    return 0;
}
SIM_EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mlock(m, abs_from_ts(ts, true)); }
SIM_EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mlock(m, abs_from_ts(ts, c == CLOCK_REALTIME)); }
SIM_EXPORT int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!live()) return real_pthread_mutex_unlock()(m);
    int rc = munlock(m);
    if (on()) sched_point(22);
    return rc;
}
SIM_EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) {
    int rc = real_pthread_mutex_init()(m, a);
    if (live()) { Rt r; mtab().drop(m); }
    return rc;
}
SIM_EXPORT int pthread_mutex_destroy(pthread_mutex_t* m) {
    if (!live()) return real_pthread_mutex_destroy()(m);
    Rt r; Mtx& x = mget(m);
    if (x.owner >= 0) fail("mutex-misuse", "mutex destroyed while T%d holds it", x.owner);
    mtab().drop(m); return 0;
}

static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline) {
    if (on()) sched_point(23);
    Rt r;
    u64 dl = deadline; bool spurious = false;
    if (fault(F_SPURIOUS_WAKE)) { u64 w = g.now + 200 + 3000 * fault_pick(F_SPURIOUS_WAKE, 8); if (!dl || w < dl) { dl = w; spurious = true; } }
    Mtx& x = mget(m);
    if (x.owner != g.cur->tid) fail("mutex-misuse", "condition wait without holding the mutex (T%d)", g.cur->tid);
    int rec = x.rec; x.rec = 0; x.owner = -1; m->__data.__lock = 0;
    vc_release_to(x.vc);
    wake_n(m, 1);
    bool to = false;
    if (!dl || dl > g.now) { block_current("condition wait", c, dl); to = g.cur->timed_out; }
    else { to = true; }
    mlock(m, 0, true);
    mget(m).rec = rec;
    return (to && !spurious) ? ETIMEDOUT : 0;
}
REAL(int, pthread_cond_init, pthread_cond_t*, const pthread_condattr_t*)
SIM_EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { return real_pthread_cond_init()(c, a); }
SIM_EXPORT int pthread_cond_destroy(pthread_cond_t*) { return 0; }
SIM_EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, 0); }
SIM_EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    bool mono = (c->__data.__wrefs >> 1) & 1;
    return cond_wait(c, m, abs_from_ts(ts, !mono));
}
SIM_EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) { return cond_wait(c, m, abs_from_ts(ts, id == CLOCK_REALTIME)); }
SIM_EXPORT int pthread_cond_signal(pthread_cond_t* c) { if (!live()) return 0; { Rt r; wake_n(c, 1); } if (on()) sched_point(24); return 0; }
SIM_EXPORT int pthread_cond_broadcast(pthread_cond_t* c) { if (!live()) return 0; { Rt r; wake_all(c); } if (on()) sched_point(25); return 0; }

// ---- reader/writer locks
static int rw_lock(pthread_rwlock_t* l, bool wr, bool tryit, u64 dl) {
    if (on()) sched_point(26);
    Rt r;
    for (;;) {
        Mtx& x = rwtab().get(l);
        if (wr ? (x.owner < 0 && x.readers == 0) : x.owner < 0) {
            if (wr) x.owner = g.cur->tid; else { x.readers++; x.rmask |= 1ull << g.cur->tid; }
            vc_acquire_from(x.vc); return 0;
        }
        if (tryit) return EBUSY;
        block_current("rwlock", l, dl);
        if (g.cur->timed_out) return ETIMEDOUT;
    }
}
SIM_EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { memset(l, 0, sizeof *l); if (live()) { Rt r; rwtab().drop(l); } return 0; }
SIM_EXPORT int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (live()) { Rt r; rwtab().drop(l); } return 0; }
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
SIM_EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l) { if (!live()) return real_pthread_rwlock_rdlock()(l); return rw_lock(l, false, false, 0); }
SIM_EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l) { if (!live()) return real_pthread_rwlock_wrlock()(l); return rw_lock(l, true, false, 0); }
SIM_EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rw_lock(l, false, true, 0); }
SIM_EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return rw_lock(l, true, true, 0); }
SIM_EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!live()) return real_pthread_rwlock_unlock()(l);
    Rt r; Mtx& x = rwtab().get(l);
    if (x.owner == g.cur->tid) x.owner = -1;
    else if (x.readers > 0) { x.readers--; }
    else fail("mutex-misuse", "rwlock unlocked while not held");
    vc_release_to(x.vc);
    wake_all(l);
    return 0;
}

// ---- semaphores (state kept in the table, value = rec)
SIM_EXPORT int sem_init(sem_t* s, int, unsigned v) { Rt r; stab().drop(s); stab().get(s).rec = (int)v; return 0; }
SIM_EXPORT int sem_destroy(sem_t* s) { Rt r; stab().drop(s); return 0; }
static int sem_w(sem_t* s, bool tryit, u64 dl) {
    if (on()) sched_point(27);
    Rt r;
    for (;;) {
        Mtx& x = stab().get(s);
        if (x.rec > 0) { x.rec--; vc_acquire_from(x.vc); return 0; }
        if (tryit) { errno = EAGAIN; return -1; }
        block_current("semaphore", s, dl);
        if (g.cur->timed_out) { errno = ETIMEDOUT; return -1; }
    }
}
SIM_EXPORT int sem_wait(sem_t* s) { return sem_w(s, false, 0); }
SIM_EXPORT int sem_trywait(sem_t* s) { return sem_w(s, true, 0); }
SIM_EXPORT int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_w(s, false, abs_from_ts(ts, true)); }
SIM_EXPORT int sem_post(sem_t* s) { { Rt r; Mtx& x = stab().get(s); x.rec++; vc_release_to(x.vc); wake_n(s, 1); } if (on()) sched_point(28); return 0; }
SIM_EXPORT int sem_getvalue(sem_t* s, int* v) { Rt r; *v = stab().get(s).rec; return 0; }

// ---- once, static-initialisation guards
REAL(int, pthread_once, pthread_once_t*, void (*)(void))
SIM_EXPORT int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!live()) return real_pthread_once()(o, f);
    if (on()) sched_point(29);
    for (;;) {
        { Rt r; Mtx& x = stab().get(o);
          if (*o == 2 || x.rec == 2) { vc_acquire_from(x.vc); return 0; }
          if (*o == 0 && x.rec == 0) { x.rec = 1; x.owner = g.cur->tid; }
          else { block_current("once", o, 0); continue; } }
        struct Undo { pthread_once_t* o; bool ok = false; ~Undo() { Rt r; Mtx& x = stab().get(o); x.rec = ok ? 2 : 0; *o = ok ? 2 : 0; vc_release_to(x.vc); wake_all(o); } } u{o};
        f(); u.ok = true;
        return 0;
    }
}
// exception objects come from libc's own heap: forget what was known about their addresses
extern "C" __attribute__((visibility("default"))) void* __cxa_allocate_exception(size_t n) noexcept {
    static void* (*real)(size_t) = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    Rt r;
    void* p = real(n);
    if (g.running) shadow_clear((uptr)p, n);
    return p;
}
extern "C" __attribute__((visibility("default"))) int __cxa_guard_acquire(uint64_t* gu) {
    u8* b = (u8*)gu;
    if (!live()) { if (b[0]) return 0; b[1] = 1; return 1; }
    if (on()) sched_point(30);
    Rt r;
    for (;;) {
        Mtx& x = stab().get(gu);
        if (b[0]) { vc_acquire_from(x.vc); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        block_current("static initialisation", gu, 0);
    }
}
extern "C" __attribute__((visibility("default"))) void __cxa_guard_release(uint64_t* gu) {
    u8* b = (u8*)gu; b[1] = 0;
    if (on()) rt_store8(b, 1); else b[0] = 1;
    if (live()) { Rt r; vc_release_to(stab().get(gu).vc); wake_all(gu); }
}
extern "C" __attribute__((visibility("default"))) void __cxa_guard_abort(uint64_t* gu) {
    u8* b = (u8*)gu; b[0] = 0; b[1] = 0;
    if (live()) { Rt r; wake_all(gu); }
}

// ------------------------------------------------------------------ threads
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)
SIM_EXPORT int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    if (!live()) return real_pthread_create()(t, a, fn, arg);
    if (on()) sched_point(31);
    if (fault(F_THREAD_CREATE)) return EAGAIN;
    int id = spawn(fn, arg, "thread", false);
    if (id < 0) fail("harness-limit", "too many simulated threads");
    int det = 0; if (a) pthread_attr_getdetachstate(a, &det);
    if (det == PTHREAD_CREATE_DETACHED) g.fib[id].detached = true;
    *t = (pthread_t)(id + 1);
    if (on()) sched_point(32);
    return 0;
}
static Fiber* by_pt(pthread_t t) { u64 i = (u64)t - 1; if (i >= (u64)MAXT || g.fib[i].st == FS_FREE) return nullptr; return &g.fib[i]; }
REAL(int, pthread_join, pthread_t, void**)
SIM_EXPORT int pthread_join(pthread_t t, void** ret) {
    if (!live()) return real_pthread_join()(t, ret);
    if (on()) sched_point(33);
    Rt r;
    Fiber* f = by_pt(t);
    if (!f || f->joined) return ESRCH;
    if (f->detached) return EINVAL;
    if (f == g.cur) return EDEADLK;
    g.cur->join_target = f->tid;
    while (f->st != FS_DONE) block_current("thread join", f, 0);
    g.cur->join_target = -1;
    f->joined = true;
    vc_acquire_from(f->vc);
    if (ret) *ret = f->ret;
    return 0;
}
SIM_EXPORT int pthread_detach(pthread_t t) { Fiber* f = by_pt(t); if (!f) return ESRCH; f->detached = true; return 0; }
REAL(pthread_t, pthread_self, void)
SIM_EXPORT pthread_t pthread_self(void) { if (!g.running) return real_pthread_self()(); return (pthread_t)(g.cur->tid + 1); }
namespace sim { int g_affinity_calls = 0; }
SIM_EXPORT int pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t* s) {
    if (!live()) return 0;
    if (on()) sched_point(34);
    Rt r; g_affinity_calls++;
    if (!by_pt(t)) return ESRCH;
    if (fault(F_AFFINITY)) return EINVAL;
    // the simulated machine has 8 processors
    bool any = false; for (int i = 0; i < 8 && i < (int)(n * 8); i++) if (CPU_ISSET_S(i, n, s)) any = true;
    return any ? 0 : EINVAL;
}
SIM_EXPORT int pthread_setname_np(pthread_t t, const char* n) { Fiber* f = by_pt(t); if (f) strncpy(f->name, n, 23); return 0; }
SIM_EXPORT int sched_setaffinity(pid_t, size_t, const cpu_set_t*) { return 0; }
SIM_EXPORT int pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }
SIM_EXPORT int sched_yield(void) {
    if (!live() || g.cur->quiet) return 0;
    Rt r;
    k_yield();
    return 0;
}

// ------------------------------------------------------------------ clocks
static u64 oversleep(u64 ns) {
    u64 d = 52000;                               // typical timer slack
    u32 c = choose(ST_TIME, 4, g.replay ? 0 : (g.st[ST_TIME].rng.below(8) < 6 ? 0 : 1 + g.st[ST_TIME].rng.below(3)));
    if (c == 1) d = 1000; else if (c == 2) d = 150000; else if (c == 3) d = 900000;
    if (fault(F_OVERSLEEP)) { static const u64 x[4] = {2000000, 10000000, 60000000, 400000000}; d += x[fault_pick(F_OVERSLEEP, 4)]; }
    return ns + d + g.timer_slack;
}
static int do_sleep(u64 ns) {
    if (g.sleep_cb) { Rt r; g.cur->last_sleep = ns; }
    if (g.sleep_cb) { Quiet q; g.sleep_cb(g.cur->tid, ns); }
    Rt r; g.cur->last_sleep = ns;
    g.sync_ops++;
    sleep_until_abs(g.now + oversleep(ns), "sleep");
    return 0;
}
REAL(int, nanosleep, const struct timespec*, struct timespec*)
SIM_EXPORT int nanosleep(const struct timespec* ts, struct timespec* rem) {
    if (!live()) return real_nanosleep()(ts, rem);
    if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000l) { errno = EINVAL; return -1; }
    return do_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);      // never interrupted: *rem stays untouched, it may be *ts
}
SIM_EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem) {
    if (!live()) return real_nanosleep()(ts, rem) ? errno : 0;
    if (flags & TIMER_ABSTIME) {
        u64 a = abs_from_ts(ts, c == CLOCK_REALTIME);
        return do_sleep(a > g.now ? a - g.now : 0);
    }
    return do_sleep((u64)ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
REAL(int, usleep, useconds_t)
SIM_EXPORT int usleep(useconds_t us) { if (!live()) return real_usleep()(us); return do_sleep((u64)us * 1000); }
REAL(unsigned, sleep, unsigned)
SIM_EXPORT unsigned sleep(unsigned s) { if (!live()) return real_sleep()(s); do_sleep((u64)s * 1000000000ull); return 0; }

static void clock_tick() {
    if (on()) sched_point(35);
    Rt r;
    g.now += 20;
    if (fault(F_CLOCK_JUMP)) {
        static const i64 j[8] = {-50000000ll, 50000000ll, -10000000000ll, 10000000000ll, -3600000000000ll, 3600000000000ll, -86400000000000ll, 500000ll};
        g.wall_off += j[fault_pick(F_CLOCK_JUMP, 8)];
    }
}
REAL(int, clock_gettime, clockid_t, struct timespec*)
SIM_EXPORT int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!live()) return real_clock_gettime()(c, ts);
    clock_tick();
    i64 t = (i64)g.now + 1000000000000ll;     // the machine has been up for a while
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) t = WALL_BASE + (i64)g.now + g.wall_off;
    else if (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME) t = (i64)g.now;
    ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
    return 0;
}
REAL(int, gettimeofday, struct timeval*, void*)
SIM_EXPORT int gettimeofday(struct timeval* tv, void* z) {
    if (!live()) return real_gettimeofday()(tv, z);
    clock_tick();
    i64 t = WALL_BASE + (i64)g.now + g.wall_off;
    tv->tv_sec = t / 1000000000ll; tv->tv_usec = t % 1000000000ll / 1000; return 0;
}
REAL(time_t, time, time_t*)
SIM_EXPORT time_t time(time_t* o) {
    if (!live()) return real_time()(o);
    clock_tick();
    time_t t = (WALL_BASE + (i64)g.now + g.wall_off) / 1000000000ll; if (o) *o = t; return t;
}
SIM_EXPORT clock_t clock(void) { return (clock_t)(g.now / 1000); }
SIM_EXPORT int getpid_sim() { return 1; }
REAL(pid_t, getpid, void)
SIM_EXPORT pid_t getpid(void) { if (!g.running) return real_getpid()(); return 4242; }
SIM_EXPORT pid_t gettid(void) { return g.cur ? 4242 + g.cur->tid : 4242; }

// ------------------------------------------------------------------ process exits
SIM_EXPORT void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) {
    g.in_rt++;
    const char* b = strrchr(f, '/');
    if (g.running) fail("assertion", "assertion failed: %s (%s:%u %s) in T%d(%s)", e, b ? b + 1 : f, l, fn, g.cur->tid, g.cur->name);
    fprintf(stderr, "assert %s\n", e); _exit(80);
}
REAL(void, abort, void)
SIM_EXPORT void abort(void) {
    g.in_rt++;
    if (g.running && !g.ending) fail("abort", "abort() called in T%d(%s)", g.cur->tid, g.cur->name);
    real_abort()(); __builtin_unreachable();
}
REAL(void, exit, int)
SIM_EXPORT void exit(int c) {
    if (g.running) { g.in_rt++; fail("exit", "exit(%d) called in T%d(%s)", c, g.cur->tid, g.cur->name); }
    real_exit()(c); __builtin_unreachable();
}

// ------------------------------------------------------------------ thread-local storage (-femulated-tls)
struct EmuCtl { size_t size, align; void* key; const void* init; };
SIM_EXPORT void* __emutls_get_address(EmuCtl* c) {
    Rt r;
    static std::unordered_map<void*, void*>* early;
    std::unordered_map<void*, void*>** m = g.running ? &g.cur->tls : &early;
    if (!*m) *m = new std::unordered_map<void*, void*>;
    void*& p = (**m)[c];
    if (!p) {
        size_t al = c->align < 16 ? 16 : c->align;
        p = aligned_alloc(al, (c->size + al - 1) / al * al);
        if (c->init) memcpy(p, c->init, c->size); else memset(p, 0, c->size);
        if (g.running) shadow_clear((uptr)p, c->size);
    }
    return p;
}
SIM_EXPORT int __cxa_thread_atexit(void (*d)(void*), void* o, void*) { (void)d; (void)o; return 0; }

// ------------------------------------------------------------------ misc determinism
namespace std {
#pragma clang diagnostic ignored "-Winline-new-delete"
__attribute__((visibility("default"))) void random_device::_M_init(const std::string&) {}
__attribute__((visibility("default"))) random_device::result_type random_device::_M_getval() { if (!g.running) return 4; return sim::work(0x7fffffff); }
__attribute__((visibility("default"))) void random_device::_M_fini() {}
}
SIM_EXPORT int rand(void) { if (!g.running) return 4; return (int)sim::work(0x7fffffff); }
SIM_EXPORT ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((u8*)b)[i] = (u8)sim::work(256); return (ssize_t)n; }
extern "C" int sched_getcpu() { return 0; }
namespace sim {
long sim_futex(u32* a, int op, u32 v, const struct timespec* ts) {
    op &= 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        if (on()) sched_point(36);
        Rt r;
        if (*(volatile u32*)a != v) { errno = EAGAIN; return -1; }
        u64 dl = 0; if (ts) dl = (op == FUTEX_WAIT ? g.now : 0) + (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
        block_current("futex wait", a, dl);
        if (g.cur->timed_out) { errno = ETIMEDOUT; return -1; }
        return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int n; { Rt r; n = wake_n(a, (int)v); } if (on()) sched_point(37); return n; }
    errno = ENOSYS; return -1;
}
}
