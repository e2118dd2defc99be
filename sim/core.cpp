// clersim core: fibers, scheduler, choice streams, race detector, weak-memory atomics.
#include "internal.hpp"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <execinfo.h>
#include <dlfcn.h>
#include <cstdarg>
#include <exception>
#include <cxxabi.h>
#include <new>

extern "C" { struct cxa_eh_globals_ { void* a; void* b; }; }
namespace __cxxabiv1 { extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {
G g;
const char* const fault_names[NFAULT] = {
    "none", "memfd_create", "ftruncate", "mmap", "shm_open", "alloc", "thread_create", "affinity",
    "clock_jump", "stall", "oversleep", "spurious_wake", "stale_read", "cas_spurious",
    "open", "write_short", "write_err", "disk_full", "read_short", "read_err", "rename", "unlink", "fsync", "close", "setvbuf",
    "socket", "bind", "setsockopt", "send_err", "recv_err", "recv_eintr", "recv_timeout",
    "net_drop", "net_dup", "net_delay", "net_short", "net_long", "net_empty",
    "dev_err", "dev_short", "dev_timeout", "dev_overflow", "dev_stall",
    "kernel_create", "kernel_sem", "crash", "soft_err", "fatal_err", "hugepage_refused", "shutdown_race"};

// ------------------------------------------------------------------ choices
u32 choose(int s, u32 n, u32 v) {
    Stream& st = g.st[s];
    u32 i = st.idx++;
    if (g.replay) {
        v = 0;
        while (st.rpos < st.rep.size() && st.rep[st.rpos].first < i) st.rpos++;
        if (st.rpos < st.rep.size() && st.rep[st.rpos].first == i) v = st.rep[st.rpos++].second;
        if (n && v >= n) v %= n;
    }
    if (v) {
        if (g.record) {
            if (g.sh->ndelta < MAX_DELTA) g.sh->delta[g.sh->ndelta++] = Delta{(u32)s, i, v};
            else g.sh->delta_overflow = 1;
        }
        hash_mix(((u64)s << 56) ^ ((u64)i << 24) ^ v);
    }
    return v;
}
u32 choose_uniform(int s, u32 n) {
    if (n <= 1) return choose(s, n, 0);
    u32 v = g.replay ? 0 : g.st[s].rng.below(n);
    return choose(s, n, v);
}
u32 work(u32 n) { Rt r; return choose_uniform(ST_WORK, n); }
u32 cfg(u32 n) { Rt r; return choose_uniform(ST_CFG, n); }
bool cfg_bool() { return cfg(2) != 0; }
u32 work_w(const u32* w, u32 n) {
    Rt r; u32 v = 0;
    if (!g.replay) {
        u32 tot = 0; for (u32 i = 0; i < n; i++) tot += w[i];
        u32 x = g.st[ST_WORK].rng.below(tot);
        for (v = 0; v + 1 < n; v++) { if (x < w[v]) break; x -= w[v]; }
    }
    return choose(ST_WORK, n, v);
}
void set_rate(Fault f, u32 r) { g.rate[f] = r; }
bool fault(Fault f) {
    if (!g.running) return false;
    Rt r;
    u32 v = 0;
    if (!g.replay && g.rate[f]) v = (g.st[ST_F0 + f].rng.below(1024) < g.rate[f]);
    if (!choose(ST_F0 + f, 2, v)) return false;
    g.sh->fault[f]++;
    if (g.verbose) evlog("fault %s", fault_names[f]);
    return true;
}
u32 fault_pick(Fault f, u32 n) { Rt r; return choose_uniform(ST_F0 + f, n); }
u64 fault_count(Fault f) { return g.sh ? g.sh->fault[f] : 0; }

void hash_mix(u64 x) { g.hash = (g.hash ^ x) * 1099511628211ull; g.hash ^= g.hash >> 29; }

// ------------------------------------------------------------------ reporting
void evlog(const char* fmt, ...) {
    if (!g.verbose || !g.sh) return;
    Shared* s = g.sh;
    if (s->evlen + 400 > EVLOG) return;
    int n = snprintf(s->ev + s->evlen, 64, "%12.3fus T%d ", g.now / 1000.0, g.cur ? g.cur->tid : -1);
    s->evlen += n;
    va_list ap; va_start(ap, fmt);
    n = vsnprintf(s->ev + s->evlen, 300, fmt, ap);
    va_end(ap);
    if (n > 299) n = 299;
    s->evlen += n;
    s->ev[s->evlen++] = '\n';
}
void note(const char* fmt, ...) {
    if (!g.verbose) return;
    Rt r;
    char b[300]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    evlog("%s", b);
}
void probe(const char* name, u64 n) {
    Shared* s = g.sh; if (!s) return;
    for (u32 i = 0; i < s->nprobe; i++) if (!strcmp(s->probe[i].name, name)) { s->probe[i].n += n; return; }
    if (s->nprobe >= MAX_PROBE) return;
    strncpy(s->probe[s->nprobe].name, name, 47); s->probe[s->nprobe].n = n; s->nprobe++;
}
void sample(const char* fmt, ...) {
    Rt r; va_list ap; va_start(ap, fmt); vsnprintf(g.sh->sample, sizeof g.sh->sample, fmt, ap); va_end(ap);
}
void nontrivial() { g.sh->nontrivial = 1; }

static void finish_stats() {
    Shared* s = g.sh;
    s->steps = g.steps; s->switches = g.switches; s->sync_ops = g.sync_ops; s->accesses = g.accesses;
    s->trace_hash = g.hash; s->sched_hash = g.shash; s->sim_ns = g.now;
}
[[noreturn]] void fail(const char* kind, const char* fmt, ...) {
    g.in_rt++;
    if (g.ending) _exit(78);
    g.ending = true;
    strncpy(g.sh->kind, kind, 63);
    va_list ap; va_start(ap, fmt); vsnprintf(g.sh->msg, sizeof g.sh->msg, fmt, ap); va_end(ap);
    evlog("VIOLATION %s: %s", kind, g.sh->msg);
    finish_stats();
    g.sh->status = 2;
    _exit(77);
}
std::string describe_pc(uptr pc) {
    if (!pc) return "?";
    Dl_info di; char b[400];
    if (dladdr((void*)(pc - 1), &di) && di.dli_fname) {
        const char* f = strrchr(di.dli_fname, '/');
        snprintf(b, sizeof b, "%s+0x%lx", f ? f + 1 : di.dli_fname, (unsigned long)(pc - 1 - (uptr)di.dli_fbase));
    } else snprintf(b, sizeof b, "0x%lx", (unsigned long)pc);
    return b;
}

// ------------------------------------------------------------------ fibers
asm(R"(
.text
.globl sim_swap
.hidden sim_swap
.type sim_swap,@function
sim_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_swap,.-sim_swap
)");
extern "C" void sim_swap(void** save, void* to);

constexpr size_t STACK_SZ = 8u << 20;

static void switch_to(Fiber* f) {
    Fiber* me = g.cur;
    if (f == me) return;
    g.switches++;
    g.quantum = 0; g.quantum_acc = 0; f->starve = 0;
    g.shash = (g.shash ^ ((u64)f->tid << 32 ^ (g.sync_ops & 0xffffffff))) * 1099511628211ull;
    hash_mix(0xABCD0000u ^ (u64)f->tid);
    me->err = errno;
    void** eh = (void**)__cxxabiv1::__cxa_get_globals();
    me->eh[0] = eh[0]; me->eh[1] = eh[1];
    g.cur = f;
    eh[0] = f->eh[0]; eh[1] = f->eh[1];
    int saved_rt = g.in_rt;
    sim_swap(&me->sp, f->sp);
    g.in_rt = saved_rt;
    errno = me->err;
}

static int pick_cyclic(u64 mask, int from, u32 k) {   // k-th set bit cyclically after `from`
    for (;;) {
        for (int d = 1; d <= MAXT; d++) {
            int t = (from + d) % MAXT;
            if (mask >> t & 1) { if (k == 0) return t; k--; }
        }
    }
}

static void fire_timers() {
    u64 nxt = ~0ull;
    for (int i = 0; i < g.nfib; i++) {
        Fiber& f = g.fib[i];
        if (f.st == FS_BLOCK && f.wake) {
            if (f.wake <= g.now) { f.timed_out = true; f.wake = 0; f.wait_on = nullptr; f.st = FS_RUN; g.runmask |= 1ull << i; }
            else if (f.wake < nxt) nxt = f.wake;
        }
    }
    g.next_timer = nxt;
}

void make_runnable(Fiber* f) {
    if (f->st != FS_BLOCK) return;
    f->st = FS_RUN; f->wake = 0; f->wait_on = nullptr; f->timed_out = false;
    g.runmask |= 1ull << f->tid;
}
void wake_all(void* on) { for (int i = 0; i < g.nfib; i++) if (g.fib[i].st == FS_BLOCK && g.fib[i].wait_on == on) make_runnable(&g.fib[i]); }
int wake_n(void* on, int n) {
    int k = 0;
    // fair start position decided by the schedule
    u64 mask = 0; int cnt = 0;
    for (int i = 0; i < g.nfib; i++) if (g.fib[i].st == FS_BLOCK && g.fib[i].wait_on == on) { mask |= 1ull << i; cnt++; }
    while (cnt > 0 && k < n) {
        u32 c = cnt > 1 ? choose_uniform(ST_SCHED, cnt) : 0;
        int t = pick_cyclic(mask, g.cur->tid, c);
        make_runnable(&g.fib[t]); mask &= ~(1ull << t); cnt--; k++;
    }
    return k;
}

static u32 pick_value(u64 others, bool must) {   // record-mode strategy: 0 = stay (or first), k...
    int n = __builtin_popcountll(others);
    switch (g.strat) {
        case SK_PINGPONG: return must ? g.srng.below(n) : 1 + g.srng.below(n);
        case SK_RANDOM: case SK_BURST:
            if (must) return g.srng.below(n);
            return (g.srng.below(4096) < g.p_switch) ? 1 + g.srng.below(n) : 0;
        case SK_PCT: {
            // highest priority runnable; positions counted cyclically
            int best = -1; u32 bp = 0; u32 k = 0, bk = 0;
            for (int d = 1; d <= MAXT; d++) {
                int t = (g.cur->tid + d) % MAXT;
                if (others >> t & 1) { if (best < 0 || g.fib[t].prio > bp) { best = t; bp = g.fib[t].prio; bk = k; } k++; }
            }
            if (must) return bk;
            return bp > g.cur->prio ? 1 + bk : 0;
        }
    }
    return 0;
}

static constexpr u32 QUANTUM = 4000;
static constexpr u32 QUANTUM_ACC = 400000;

static void decide_switch(bool forced) {
    Fiber* me = g.cur;
    u64 others = g.runmask & ~(1ull << me->tid);
    if (!others) { g.st[ST_SCHED].idx++; g.quantum = 0; return; }
    u32 n = __builtin_popcountll(others);
    if (g.strat == SK_PCT && !g.replay) {
        if (g.pct_next && --g.pct_next == 0) { me->prio = g.srng.below(1000); g.pct_next = 1 + g.srng.below(g.pct_len); }
    }
    if (forced) {
        if (g.strat == SK_PCT) me->prio = 0;
        u32 v = choose(ST_SCHED, n, g.replay ? 0 : pick_value(others, true));
        switch_to(&g.fib[pick_cyclic(others, me->tid, v)]);
    } else {
        u32 v = choose(ST_SCHED, n + 1, g.replay ? 0 : pick_value(others, false));
        if (v) switch_to(&g.fib[pick_cyclic(others, me->tid, v - 1)]);
    }
}

// Fairness that no strategy overrides: a thread runnable for about 60000 scheduling steps runs next.
static Fiber* starving() {
    Fiber* r = nullptr;
    for (int i = 0; i < g.nfib; i++) {
        Fiber& f = g.fib[i];
        if (&f == g.cur || !(g.runmask >> i & 1)) { f.starve = 0; continue; }
        if (++f.starve > 60 && (!r || f.starve > r->starve)) r = &f;
    }
    return r;
}

static void check_limits() {
    if (g.steps > g.step_limit) {
        std::string s;
        for (int i = 0; i < g.nfib; i++) if (g.fib[i].st == FS_RUN || g.fib[i].st == FS_BLOCK) {
            char b[160]; snprintf(b, sizeof b, " T%d(%s:%s%s)", i, g.fib[i].name, g.fib[i].st == FS_RUN ? "runnable" : "blocked in ", g.fib[i].st == FS_BLOCK ? g.fib[i].wait_what : ""); s += b;
        }
        fail(g.step_kind, "no completion within %llu scheduling steps (simulated %.3f ms); threads:%s", (unsigned long long)g.step_limit, g.now / 1e6, s.c_str());
    }
}

void sched_point(u32 op) {
    Rt r;
    Fiber* me = g.cur;
    g.steps++; g.sync_ops++;
    g.now += g.tick_sync;
    // Everyone else sleeps: a thread that keeps polling runs ever slower (at most 20 us per operation),
    // never past another thread's timer, so that long stalls cost few steps.
    if (g.runmask == 1ull << me->tid && g.next_timer != ~0ull && !g.coop) {
        if (++g.lonely > 64 && g.now < g.next_timer) {
            u64 t = 20ull << ((g.lonely - 64) / 16 < 10 ? (g.lonely - 64) / 16 : 10);
            if (t > 20000) t = 20000;
            if (t > g.next_timer - g.now) t = g.next_timer - g.now;
            g.now += t;
        }
    } else g.lonely = 0;
    hash_mix(((u64)op << 8) | me->tid);
    check_limits();
    if (g.now >= g.next_timer) fire_timers();
    if (g.coop) return;
    if (g.rate[F_STALL]) {   // rates are set alike when replaying: the number of decisions has to be the same
        if (fault(F_STALL)) {
            static const u64 d[5] = {50000, 300000, 2000000, 20000000, 150000000};
            u64 w = d[fault_pick(F_STALL, 5)];
            sleep_until_abs(g.now + w, "stalled");
            return;
        }
    }
    if (!(g.steps & 1023)) if (Fiber* f = starving()) { g.st[ST_SCHED].idx++; switch_to(f); return; }
    bool forced = ++g.quantum > QUANTUM || g.quantum_acc > QUANTUM_ACC;
    decide_switch(forced);
}

// after an operation that may have been blocked on
static void dispatch_blocked() {
    Fiber* me = g.cur;
    for (;;) {
        if (g.now >= g.next_timer) fire_timers();
        if (g.runmask) break;
        if (g.next_timer == ~0ull) {
            std::string s;
            for (int i = 0; i < g.nfib; i++) if (g.fib[i].st == FS_BLOCK) {
                char b[160]; snprintf(b, sizeof b, " T%d(%s) blocked in %s", i, g.fib[i].name, g.fib[i].wait_what); s += b;
            }
            fail("deadlock", "no thread can run and no timer is pending:%s", s.c_str());
        }
        g.now = g.next_timer;
    }
    g.steps++; check_limits();
    u64 m = g.runmask;
    if (!(g.steps & 1023)) if (Fiber* f = starving()) { g.st[ST_SCHED].idx++; switch_to(f); return; }
    if (m == 1ull << me->tid) { g.st[ST_SCHED].idx++; return; }
    u32 n = __builtin_popcountll(m);
    u32 v = choose(ST_SCHED, n, g.replay || g.coop == false ? (g.replay ? 0 : pick_value(m, true) % n) : g.srng.below(n));
    Fiber* f = &g.fib[pick_cyclic(m, me->tid, v)];
    switch_to(f);
}

void block_current(const char* what, void* onp, u64 wake_abs) {
    Rt r;
    Fiber* me = g.cur;
    me->st = FS_BLOCK; me->wait_on = onp; me->wait_what = what; me->wake = wake_abs; me->timed_out = false;
    g.runmask &= ~(1ull << me->tid);
    if (wake_abs && wake_abs < g.next_timer) g.next_timer = wake_abs;
    hash_mix(0xB10C ^ (u64)me->tid << 20);
    dispatch_blocked();
    me->wait_what = "";
}
void sleep_until_abs(u64 abs, const char* what) {
    if (abs <= g.now) abs = g.now + 1;
    block_current(what, nullptr, abs);
}

static void terminate_handler() {
    g.in_rt++;
    const char* what = "";
    std::string tn = "unknown";
    if (auto ep = std::current_exception()) {
        try { std::rethrow_exception(ep); }
        catch (const std::exception& e) { tn = typeid(e).name(); what = e.what(); fail("terminate", "std::terminate called in thread T%d: uncaught %s: %s", g.cur ? g.cur->tid : -1, tn.c_str(), what); }
        catch (...) {}
    }
    fail("terminate", "std::terminate called in thread T%d", g.cur ? g.cur->tid : -1);
}

[[noreturn]] static void fiber_exit() {
    Fiber* me = g.cur;
    g.in_rt++;
    me->st = FS_DONE;
    g.runmask &= ~(1ull << me->tid);
    g.live--;
    me->vc.c[me->tid]++;
    hash_mix(0xE817 ^ (u64)me->tid << 20);
    if (me->tls) { delete me->tls; me->tls = nullptr; }
    for (int i = 0; i < g.nfib; i++) if (g.fib[i].st == FS_BLOCK && g.fib[i].join_target == me->tid && g.fib[i].wait_on == (void*)me) make_runnable(&g.fib[i]);
    for (;;) dispatch_blocked();
}
void emutls_run_dtors();
static void fiber_main() noexcept {
    Fiber* me = g.cur;
    g.in_rt = 0;
    me->ret = me->fn(me->arg);
    fiber_exit();
}
void k_exit() { fiber_exit(); }

int spawn(void* (*fn)(void*), void* arg, const char* name, bool kernel) {
    Rt r;
    int t = -1;
    for (int i = 0; i < g.nfib; i++) if (g.fib[i].st == FS_DONE && (g.fib[i].joined || g.fib[i].detached)) { t = i; break; }
    if (t < 0) { if (g.nfib >= MAXT) return -1; t = g.nfib++; }
    Fiber& f = g.fib[t];
    VC keep = f.vc; void* stk = f.stack;
    if (f.st == FS_FREE) keep.clear();
    f = Fiber();
    f.tid = t; f.fn = fn; f.arg = arg; f.is_kernel = kernel;
    f.vc = keep; f.vc.join(g.cur->vc); f.vc.c[t]++;
    f.rel_fence.clear(); f.acq_pending.clear(); f.view.clear();
    g.cur->vc.c[g.cur->tid]++;
    strncpy(f.name, name ? name : "thread", 23);
    if (!stk) {
        stk = mmap(nullptr, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
        mprotect(stk, 4096, PROT_NONE);
    } else shadow_unmap((uptr)stk, STACK_SZ);
    f.stack = (char*)stk;
    uptr* sp = (uptr*)((char*)stk + STACK_SZ - 64);
    *--sp = 0;                       // fake return address of fiber_main (end of stack)
    *--sp = (uptr)&fiber_main;       // ret target; after ret, rsp % 16 == 8 as after a call
    for (int i = 0; i < 6; i++) *--sp = 0;
    f.sp = sp;
    f.st = FS_RUN; g.runmask |= 1ull << t; g.live++;
    f.prio = g.replay ? 0 : 1 + g.srng.below(1000);
    if ((u32)g.live > g.sh->max_threads) g.sh->max_threads = g.live;
    if (g.verbose) evlog("create thread T%d (%s)", t, f.name);
    return t;
}

// ------------------------------------------------------------------ kernel primitives
struct KArg { void (*fn)(void*); void* arg; };
static void* k_tramp(void* p) { KArg a = *(KArg*)p; free(p); a.fn(a.arg); return nullptr; }
int k_spawn(void (*fn)(void*), void* arg, const char* name) {
    KArg* a = (KArg*)malloc(sizeof(KArg)); a->fn = fn; a->arg = arg;
    int t = spawn(k_tramp, a, name, true);
    if (t >= 0) g.fib[t].detached = true;
    return t;
}
void k_join(int t) {
    Rt r;
    Fiber& f = g.fib[t];
    g.cur->join_target = t;
    while (f.st != FS_DONE) block_current("join", &f, 0);
    g.cur->join_target = -1;
    vc_acquire_from(f.vc);
}
bool k_block_t(void* ch, u64 ns) { block_current("kernel object", ch, ns ? g.now + ns : 0); return !g.cur->timed_out; }
void k_block(void* ch, u64 ns) { k_block_t(ch, ns); }
void k_wake(void* ch, int n) { Rt r; wake_n(ch, n); }
void k_yield() {
    Rt r;
    g.steps++; g.sync_ops++; g.now += g.tick_sync; check_limits();
    if (g.now >= g.next_timer) fire_timers();
    u64 others = g.runmask & ~(1ull << g.cur->tid);
    if (!others) { g.now += 1000; return; }
    u32 v = choose(ST_SCHED, __builtin_popcountll(others), g.replay ? 0 : g.srng.below(__builtin_popcountll(others)));
    switch_to(&g.fib[pick_cyclic(others, g.cur->tid, v)]);
}
static std::unordered_map<void*, VC>& kvc() { static auto* m = new std::unordered_map<void*, VC>; return *m; }
void k_acquire(void* s) { Rt r; auto it = kvc().find(s); if (it != kvc().end()) vc_acquire_from(it->second); }
void k_release(void* s) { Rt r; auto it = kvc().find(s); if (it == kvc().end()) { VC v; v.clear(); it = kvc().emplace(s, v).first; } vc_release_to(it->second); }
void k_kill(int t) {
    Rt r; Fiber& f = g.fib[t];
    if (f.st == FS_DONE || f.st == FS_FREE || &f == g.cur) return;
    vc_acquire_from(f.vc);
    f.st = FS_DONE; f.wake = 0; f.wait_on = nullptr; f.killed = true; g.runmask &= ~(1ull << t); g.live--;
}

// ------------------------------------------------------------------ public misc
Quiet::Quiet() { if (g.running) g.cur->quiet++; }
Quiet::~Quiet() { if (g.running) g.cur->quiet--; }
u64 now_ns() { return g.now; }
i64 wall_offset_ns() { return g.wall_off; }
void jump_wall(i64 ns) { g.wall_off += ns; }
u64 steps() { return g.steps; }
int tid() { return g.cur ? g.cur->tid : -1; }
void point() { if (g.running) sched_point(1); }
void sleep_ns(u64 ns) { Rt r; sleep_until_abs(g.now + ns, "harness sleep"); }
void block_until(bool (*pred)(void*), void* arg, u64 timeout) {
    u64 end = timeout ? g.now + timeout : ~0ull, d = 1000;
    while (!pred(arg) && g.now < end) { sleep_ns(d); if (d < 200000) d *= 2; }
}
void set_step_limit(u64 s, const char* k) { g.step_limit = s; g.step_kind = k; }
u64 last_sleep_request_ns(int t) { return g.fib[t].last_sleep; }
void on_sleep(void (*cb)(int, u64)) { g.sleep_cb = cb; }
void set_timer_slack(u64 ns) { g.timer_slack = ns; }
int live_threads() { return g.live; }
void set_cooperative(bool o) { g.coop = o; }
void set_weak(bool o) { if (!o) g.stale_rate = 0, g.weak = false; }
void set_no_preempt_plain(bool o) { g.plain_on = !o; }
u64 run_index() { return g.run; }
bool replaying() { return g.replay; }
bool verbose() { return g.verbose; }

// ------------------------------------------------------------------ vector clocks
void vc_release_to(VC& d) { d.join(g.cur->vc); g.cur->vc.c[g.cur->tid]++; }
void vc_acquire_from(const VC& s) { g.cur->vc.join(s); }

// ------------------------------------------------------------------ shadow memory
// Epoch: tid in the top 6 bits, clock below.
static inline u32 ep(int t, u32 c) { return (u32)t << 26 | (c & 0x3ffffff); }
static inline int ept(u32 e) { return e >> 26; }
static inline u32 epc(u32 e) { return e & 0x3ffffff; }

struct AStore { u64 val; u32 clk; u8 tid; bool init; bool has_rel; u32 seq; VC rel; };
struct AtomicLoc {
    uptr addr; u8 size; u8 n; u32 seq;
    AStore h[6];
    struct Seen { u32 clk, seq; } seen[MAXT][3];
    u8 streak[MAXT];
    AtomicLoc* next;
};
struct Cell { u32 w, r[3], a[2]; u8 wm, rm[3], am[2], aw, state; };
static_assert(sizeof(Cell) == 32, "cell");
struct Page { Cell c[512]; AtomicLoc** at; };

static const size_t PT_SIZE = 1 << 16;
struct PTE { uptr pn; Page* p; };
static PTE* pt;
static char *arena, *arena_end;
static uptr last_pn[2]; static Page* last_pg[2];

static void shadow_init() {
    pt = (PTE*)mmap(nullptr, PT_SIZE * sizeof(PTE), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    size_t A = 4ull << 30;
    arena = (char*)mmap(nullptr, A, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_end = arena + A;
}
static void* arena_alloc(size_t n) {
    n = (n + 63) & ~63ull;
    if (arena + n > arena_end) fail("harness-oom", "shadow arena exhausted");
    void* p = arena; arena += n; return p;
}
static PTE* pte_slot(uptr pn) {
    size_t h = (pn * 0x9E3779B97F4A7C15ull) >> 40;
    for (;;) { PTE* e = &pt[h & (PT_SIZE - 1)]; if (e->pn == pn || e->pn == 0) return e; h++; }
}
static Page* page_of_slow(uptr pn, bool create) {
    PTE* e = pte_slot(pn);
    if (!e->p) { if (!create) return nullptr; e->pn = pn; e->p = (Page*)arena_alloc(sizeof(Page)); }
    last_pn[1] = last_pn[0]; last_pg[1] = last_pg[0];
    last_pn[0] = pn; last_pg[0] = e->p;
    return e->p;
}
static inline Page* page_of(uptr a, bool create = true) {
    uptr pn = a >> 12;
    if (LIKELY(last_pn[0] == pn)) return last_pg[0];
    if (last_pn[1] == pn) return last_pg[1];
    return page_of_slow(pn, create);
}
void shadow_alias(uptr dup, uptr prim, size_t n) {
    for (size_t o = 0; o < n; o += 4096) {
        Page* p = page_of(prim + o);
        PTE* e = pte_slot((dup + o) >> 12); e->pn = (dup + o) >> 12; e->p = p;
    }
    last_pn[0] = last_pn[1] = 0;
}
void shadow_unmap(uptr a, size_t n) {   // forget pages completely (whole pages only)
    for (uptr p = a >> 12; p < (a + n + 4095) >> 12; p++) { PTE* e = pte_slot(p); if (e->pn == p) e->p = nullptr; }
    last_pn[0] = last_pn[1] = 0;
}
static void drop_atomics(Page* p, uptr a, size_t n) {
    if (!p->at) return;
    for (uptr x = a & ~7ull; x < a + n; x += 8) p->at[(x & 4095) >> 3] = nullptr;
}
template <class F> static void for_cells(uptr a, size_t n, F f) {
    uptr e = a + n;
    while (a < e) {
        uptr pe = (a | 4095) + 1; if (pe > e) pe = e;
        Page* p = page_of(a);
        f(p, a, pe - a);
        a = pe;
    }
}
void shadow_clear(uptr a, size_t n) {
    for_cells(a, n, [](Page* p, uptr x, size_t m) {
        for (uptr y = x & ~7ull; y < x + m; y += 8) memset(&p->c[(y & 4095) >> 3], 0, sizeof(Cell));
        drop_atomics(p, x, m);
    });
}
static void set_state(uptr a, size_t n, u8 s) {
    for_cells(a, n, [s](Page* p, uptr x, size_t m) {
        for (uptr y = x & ~7ull; y < x + m; y += 8) p->c[(y & 4095) >> 3].state = s;
        drop_atomics(p, x, m);
    });
}
void shadow_free(uptr a, size_t n) { set_state(a, n, 1); }
void shadow_redzone(uptr a, size_t n) { set_state(a, n, 2); }

// program counters of previous accesses, kept in replay (verbose) mode only
struct PcEnt { u64 key; uptr pc; };
static PcEnt* pcs; static const u64 PCS = 1ull << 22;
// mapped in every mode, so that addresses do not depend on the mode
static void pcs_init() { pcs = (PcEnt*)mmap(nullptr, PCS * sizeof(PcEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (pcs == MAP_FAILED) pcs = nullptr; }
static inline PcEnt* pc_slot(u64 key) { u64 h = (key * 0x9E3779B97F4A7C15ull) >> 40; for (int i = 0; i < 16; i++) { PcEnt* e = &pcs[(h + i) & (PCS - 1)]; if (e->key == key || !e->key) return e; } return &pcs[h & (PCS - 1)]; }
static inline void remember_pc(uptr gran, u32 epoch, int kind, uptr pc) {
    if (LIKELY(!g.verbose || !pcs)) return;
    u64 k = (u64)gran * 64 + ept(epoch) * 4 + kind;
    PcEnt* e = pc_slot(k); e->key = k; e->pc = pc;
}
static std::string prev_pc(uptr gran, u32 epoch, int kind) {
    if (!pcs) return "?";
    u64 k = (u64)gran * 64 + ept(epoch) * 4 + kind; PcEnt* e = pc_slot(k);
    return e->key != k ? "?" : describe_pc(e->pc);
}
static void race(uptr addr, bool wr, bool at, uptr pc, u32 prev, int pkind) {
    Rt r;
    static const char* kn[] = {"write", "read", "atomic read", "atomic write"};
    fail("data-race", "unsynchronised %s%s by T%d(%s) [%s] conflicts with earlier %s by T%d(%s) [%s]",
         at ? "atomic " : "", wr ? "write" : "read", g.cur->tid, g.cur->name, describe_pc(pc).c_str(),
         kn[pkind], ept(prev), g.fib[ept(prev)].name, prev_pc(addr & ~7ull, prev, pkind).c_str());
}
static void bad_access(uptr addr, bool wr, uptr pc, u8 state) {
    Rt r;
    fail(state == 1 ? "use-after-free" : "heap-overflow", "%s of %s memory by T%d(%s) [%s]", wr ? "write" : "read",
         state == 1 ? "freed" : "out-of-bounds", g.cur->tid, g.cur->name, describe_pc(pc).c_str());
}
static inline bool hb(u32 e) { return epc(e) <= g.cur->vc.c[ept(e)]; }

static inline void cell_access(Page* p, uptr a, u8 mask, bool wr, uptr pc) {
    u32 gi = (a & 4095) >> 3;
    Cell& c = p->c[gi];
    int me = g.cur->tid; u32 my = g.cur->vc.c[me]; u32 e = ep(me, my);
    if (UNLIKELY(c.state)) bad_access(a, wr, pc, c.state);
    if ((c.wm & mask) && ept(c.w) != me && !hb(c.w)) race(a, wr, false, pc, c.w, 0);
    for (int i = 0; i < 2; i++) {
        if ((c.am[i] & mask) && ept(c.a[i]) != me && (wr || (c.aw >> i & 1)) && !hb(c.a[i])) race(a, wr, false, pc, c.a[i], (c.aw >> i & 1) ? 3 : 2);
    }
    if (wr) {
        for (int i = 0; i < 3; i++) if ((c.rm[i] & mask) && ept(c.r[i]) != me && !hb(c.r[i])) race(a, wr, false, pc, c.r[i], 1);
        if (c.w != e) { if (mask == 0xff || !(c.wm & ~mask) || hb(c.w)) { c.w = e; c.wm = mask; } else { c.w = e; c.wm = mask; } }
        else c.wm |= mask;
        c.rm[0] &= ~mask; c.rm[1] &= ~mask; c.rm[2] &= ~mask;
        if (p->at && p->at[gi]) {   // plain write over an atomic location (construction): restart its history
            for (AtomicLoc* l = p->at[gi]; l; l = l->next) { l->n = 0; memset(l->seen, 0, sizeof l->seen); }
        }
        remember_pc(a & ~7ull, e, 0, pc);
    } else {
        int slot = -1, freeslot = -1;
        for (int i = 0; i < 3; i++) {
            if (!c.rm[i]) { if (freeslot < 0) freeslot = i; }
            else if (ept(c.r[i]) == me) { slot = i; break; }
        }
        if (slot >= 0) { if (c.r[slot] == e) c.rm[slot] |= mask; else { c.r[slot] = e; c.rm[slot] = mask; } }
        else {
            if (freeslot < 0) { for (int i = 0; i < 3; i++) if (hb(c.r[i])) { freeslot = i; break; } if (freeslot < 0) freeslot = my % 3; }
            c.r[freeslot] = e; c.rm[freeslot] = mask;
        }
        remember_pc(a & ~7ull, e, 1, pc);
    }
}
static void range_access(uptr a, size_t n, bool wr, uptr pc) {
    uptr e = a + n;
    while (a < e) {
        uptr ge = (a | 7) + 1; if (ge > e) ge = e;
        u8 mask = (u8)(((1u << (ge - a)) - 1) << (a & 7));
        cell_access(page_of(a), a, mask, wr, pc);
        a = ge;
    }
}
static void plain_slow() {
    // decide whether to preempt here, and how far away the next decision is
    Rt r;
    g.steps++;
    if (g.steps % 64 == 0) check_limits();
    if (!g.coop) {
        g.quantum_acc += 64;
        bool forced = g.quantum_acc > QUANTUM_ACC;
        if (g.now >= g.next_timer) fire_timers();
        u64 others = g.runmask & ~(1ull << g.cur->tid);
        u32 n = __builtin_popcountll(others);
        u32 v = 0;
        if (n) {
            u32 want = 0;
            if (!g.replay) {
                if (forced) want = 1 + pick_value(others, true) % n;
                else if (g.plain_on && g.srng.below(4096) < g.p_switch) want = 1 + g.srng.below(n);
            }
            v = choose(ST_PLAIN, n + 1, want);
            if (!v && forced) v = 1;
        } else g.st[ST_PLAIN].idx++;
        if (v) switch_to(&g.fib[pick_cyclic(others, g.cur->tid, v - 1)]);
    }
}
static inline void plain(uptr a, size_t n, bool wr, uptr pc) {
    if (!on()) return;
    g.accesses++; g.now += g.tick_plain;
    if (UNLIKELY(--g.plain_left <= 0)) { g.plain_left = 16; plain_slow(); }
    u32 o = a & 7;
    if (LIKELY(o + n <= 8)) cell_access(page_of(a), a, (u8)(((1u << n) - 1) << o), wr, pc);
    else range_access(a, n, wr, pc);
}
void access_range(uptr a, size_t n, bool wr, uptr pc) {
    if (!on() || !n) return;
    g.accesses++; g.now += g.tick_plain * (1 + n / 64);
    if (UNLIKELY(--g.plain_left <= 0)) { g.plain_left = 16; plain_slow(); }
    range_access(a, n, wr, pc);
}

// ------------------------------------------------------------------ atomics
enum MO { RLX, CON, ACQ, REL, AR, SC };
static inline bool is_acq(int m) { return m == ACQ || m == CON || m == AR || m == SC; }
static inline bool is_rel(int m) { return m == REL || m == AR || m == SC; }

static AtomicLoc* aloc(uptr a, u8 size, u64 memval) {
    Page* p = page_of(a);
    if (!p->at) p->at = (AtomicLoc**)arena_alloc(512 * sizeof(void*));
    AtomicLoc** h = &p->at[(a & 4095) >> 3];
    uptr off = a & 7;
    AtomicLoc* l = *h;
    while (l && !((l->addr & 7) == off && l->size == size)) l = l->next;
    if (!l) { l = (AtomicLoc*)arena_alloc(sizeof(AtomicLoc)); l->addr = a; l->size = size; l->n = 0; l->seq = 0; l->next = *h; *h = l; }
    if (l->n && l->h[l->n - 1].val != memval) l->n = 0;    // changed behind our back (plain store by uninstrumented code)
    if (!l->n) { l->n = 1; AStore& s = l->h[0]; s.val = memval; s.init = true; s.has_rel = false; s.seq = ++l->seq; s.clk = 0; s.tid = 0; memset(l->seen, 0, sizeof l->seen); memset(l->streak, 0, sizeof l->streak); }
    return l;
}
static void atomic_shadow(uptr a, u8 size, bool wr, uptr pc) {
    Page* p = page_of(a); Cell& c = p->c[(a & 4095) >> 3];
    int me = g.cur->tid; u32 e = ep(me, g.cur->vc.c[me]);
    u8 mask = (u8)(((1u << size) - 1) << (a & 7));
    if (UNLIKELY(c.state)) bad_access(a, wr, pc, c.state);
    if ((c.wm & mask) && ept(c.w) != me && !hb(c.w)) race(a, wr, true, pc, c.w, 0);
    if (wr) for (int i = 0; i < 3; i++) if ((c.rm[i] & mask) && ept(c.r[i]) != me && !hb(c.r[i])) race(a, wr, true, pc, c.r[i], 1);
    int s = -1;
    for (int i = 0; i < 2; i++) if (c.am[i] && ept(c.a[i]) == me && ((c.aw >> i & 1) == (wr ? 1 : 0))) s = i;
    if (s < 0) for (int i = 0; i < 2; i++) if (!c.am[i]) s = i;
    if (s < 0) for (int i = 0; i < 2; i++) if (ept(c.a[i]) == me && wr) s = i;
    if (s < 0) s = wr ? 0 : 1;
    c.a[s] = e; c.am[s] = mask; if (wr) c.aw |= 1 << s; else c.aw &= ~(1 << s);
    remember_pc(a & ~7ull, e, wr ? 3 : 2, pc);
}
static void note_seen(AtomicLoc* l, u32 seq) {
    Fiber* f = g.cur; auto* s = l->seen[f->tid]; u32 clk = f->vc.c[f->tid];
    if (s[0].clk == clk) { if (seq > s[0].seq) s[0].seq = seq; return; }
    // shift; merge the oldest conservatively
    if (s[2].seq > 0 && s[1].seq < s[2].seq) s[1].seq = s[2].seq;
    s[2] = s[1]; s[1] = s[0]; s[0].clk = clk; s[0].seq = seq;
}
static u32 min_seq(AtomicLoc* l) {
    Fiber* f = g.cur; u32 m = 0;
    for (int t = 0; t < g.nfib; t++) for (int k = 0; k < 3; k++) {
        auto& s = l->seen[t][k];
        if (s.seq > m && (t == f->tid || s.clk <= f->vc.c[t] || (f->has_view && s.clk <= f->view.c[t]))) m = s.seq;
    }
    for (int i = 0; i < l->n; i++) {
        AStore& s = l->h[i];
        if (s.seq > m && (s.init || s.tid == f->tid || s.clk <= f->vc.c[s.tid] || (f->has_view && s.clk <= f->view.c[s.tid]))) m = s.seq;
    }
    return m;
}
static void push_store(AtomicLoc* l, u64 v, int mo, bool rmw) {
    Fiber* f = g.cur;
    VC* prev = (rmw && l->n && l->h[l->n - 1].has_rel) ? &l->h[l->n - 1].rel : nullptr;
    VC rel; bool has = false;
    if (prev) { rel = *prev; has = true; }
    if (is_rel(mo)) { if (!has) rel.clear(); rel.join(f->vc); has = true; }
    else if (f->has_rel_fence) { if (!has) rel.clear(); rel.join(f->rel_fence); has = true; }
    if (l->n == 6) { memmove(&l->h[0], &l->h[1], 5 * sizeof(AStore)); l->n = 5; }
    AStore& s = l->h[l->n++];
    s.val = v; s.init = false; s.tid = f->tid; s.clk = f->vc.c[f->tid]; s.seq = ++l->seq; s.has_rel = has; if (has) s.rel = rel;
    note_seen(l, s.seq);
    if (mo == SC) { g.sc_view.join(f->vc); if (f->has_view) g.sc_view.join(f->view); f->view.join(g.sc_view); f->has_view = true; }
    if (is_rel(mo)) f->vc.c[f->tid]++;
}
static void observe(AStore& s, int mo) {
    if (!s.has_rel) return;
    if (is_acq(mo)) g.cur->vc.join(s.rel);
    else { g.cur->acq_pending.join(s.rel); g.cur->has_acq = true; }
}
template <class T> static u64 as64(T v) { u64 r = 0; memcpy(&r, &v, sizeof(T)); return r; }
template <class T> static T from64(u64 v) { T r; memcpy(&r, &v, sizeof(T)); return r; }

template <class T> static T a_load(const volatile T* p, int mo, uptr pc) {
    if (!on()) return *p;
    sched_point(10);
    Rt r;
    uptr a = (uptr)p;
    atomic_shadow(a, sizeof(T), false, pc);
    AtomicLoc* l = aloc(a, sizeof(T), as64<T>(*p));
    int me = g.cur->tid;
    int pick = l->n - 1;
    if (mo == SC) { g.cur->view.join(g.sc_view); g.cur->has_view = true; }
    else if (l->n > 1 && (g.replay || g.stale_rate)) {
        u32 m = min_seq(l); int lo = l->n - 1;
        while (lo > 0 && l->h[lo - 1].seq >= m) lo--;
        if (lo < l->n - 1 && l->streak[me] < 6) {
            u32 back = 0;
            if (!g.replay && g.st[ST_MEM].rng.below(1024) < g.stale_rate) back = 1 + g.st[ST_MEM].rng.below(l->n - 1 - lo);
            back = choose(ST_MEM, l->n - lo, back);
            pick -= back;
            if (back) { g.sh->fault[F_STALE_READ]++; l->streak[me]++; } else l->streak[me] = 0;
        } else l->streak[me] = 0;
    }
    AStore& s = l->h[pick];
    note_seen(l, s.seq);
    observe(s, mo);
    return from64<T>(s.val);
}
template <class T> static void a_store(volatile T* p, T v, int mo, uptr pc) {
    if (!on()) { *p = v; return; }
    sched_point(11);
    Rt r;
    uptr a = (uptr)p;
    atomic_shadow(a, sizeof(T), true, pc);
    AtomicLoc* l = aloc(a, sizeof(T), as64<T>(*p));
    *p = v;
    push_store(l, as64<T>(v), mo, false);
}
template <class T, class F> static T a_rmw(volatile T* p, int mo, uptr pc, F f) {
    if (!on()) { T o = *p; *p = f(o); return o; }
    sched_point(12);
    Rt r;
    uptr a = (uptr)p;
    atomic_shadow(a, sizeof(T), true, pc);
    AtomicLoc* l = aloc(a, sizeof(T), as64<T>(*p));
    T o = *p;
    observe(l->h[l->n - 1], mo);
    *p = f(o);
    push_store(l, as64<T>(*p), mo, true);
    return o;
}
template <class T> static int a_cas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, uptr pc) {
    if (!on()) { if (*p == *exp) { *p = des; return 1; } *exp = *p; return 0; }
    sched_point(13);
    Rt r;
    uptr a = (uptr)p;
    atomic_shadow(a, sizeof(T), true, pc);
    AtomicLoc* l = aloc(a, sizeof(T), as64<T>(*p));
    T o = *p;
    AStore& s = l->h[l->n - 1];
    bool ok = memcmp(&o, exp, sizeof(T)) == 0;
    if (ok && weak && g.rate[F_CAS_SPURIOUS]) { if (fault(F_CAS_SPURIOUS)) ok = false; }
    if (ok) { observe(s, mo); *p = des; push_store(l, as64<T>(des), mo, true); return 1; }
    note_seen(l, s.seq); observe(s, fmo);
    *exp = o; return 0;
}
static void a_fence(int mo) {
    if (!on()) return;
    sched_point(14);
    Fiber* f = g.cur;
    if (is_acq(mo) && f->has_acq) f->vc.join(f->acq_pending);
    if (mo == SC) { f->view.join(g.sc_view); f->has_view = true; g.sc_view.join(f->vc); g.sc_view.join(f->view); }
    if (is_rel(mo)) { f->rel_fence = f->vc; f->has_rel_fence = true; f->vc.c[f->tid]++; }
}

void rt_store8(u8* p, u8 v) {
    Rt r;
    atomic_shadow((uptr)p, 1, true, 0);
    AtomicLoc* l = aloc((uptr)p, 1, *p);
    *p = v;
    push_store(l, v, REL, false);
}

// ------------------------------------------------------------------ heap
struct Blk { size_t size; u64 magic; u32 counted; u32 aligned; u64 site; };
static const u64 MAGIC = 0xC1E2B10CB10CC1E2ull, DEAD = 0xDEADB10CDEADB10Cull;
static i64 heap_blocks, heap_bytes, heap_limit = -1;
struct LiveEnt { size_t n; uptr site; };
static std::unordered_map<uptr, LiveEnt>* livemap;
static size_t quarantine_bytes;
static constexpr size_t RZ = 32;

extern "C" __attribute__((visibility("hidden"))) char __ehdr_start[], etext[];
static void* heap_alloc(size_t n, size_t align, uptr site, bool nothrow) {
    bool counted = on() && !(site >= (uptr)__ehdr_start && site < (uptr)etext);
    if (counted && g.rate[F_ALLOC]) {
        if (fault(F_ALLOC)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    Rt r;
    if (counted && heap_limit >= 0 && (n > (u64)heap_limit || heap_bytes + (i64)n > heap_limit)) fail("memory", "an allocation of %zu bytes with %lld held; the input justifies at most %lld", n, (long long)heap_bytes, (long long)heap_limit);
    if (align < 16) align = 16;
    size_t pre = (sizeof(Blk) + RZ + align - 1) / align * align;
    if (n > (1ull << 40)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    size_t tot = pre + ((n + 15) & ~15ull) + RZ;
    char* raw = (char*)aligned_alloc(align, (tot + align - 1) / align * align);
    if (!raw) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    char* p = raw + pre;
    Blk* b = (Blk*)(p - RZ - sizeof(Blk));
    b->size = n; b->magic = MAGIC; b->counted = counted; b->aligned = (u32)pre; b->site = site;
    if (g.running) {
        memset(p, 0xCB, n < 65536 ? n : 65536);
        shadow_clear((uptr)p, n);      // the memory may have been an exception object or a libc buffer before
        if (counted) {
            shadow_redzone((uptr)p - RZ, RZ);
            shadow_redzone((uptr)p + ((n + 7) & ~7ull), RZ - 8);
            heap_blocks++; heap_bytes += n;
            if (!livemap) livemap = new (malloc(sizeof(*livemap))) std::unordered_map<uptr, LiveEnt>;
            (*livemap)[(uptr)p] = {n, site};
        }
    }
    return p;
}
static void heap_free(void* v) {
    if (!v) return;
    char* p = (char*)v;
    Blk* b = (Blk*)(p - RZ - sizeof(Blk));
    if (b->magic != MAGIC) {
        if (g.running) { g.in_rt++; fail(b->magic == DEAD ? "double-free" : "bad-free", "delete of %s block by T%d(%s)", b->magic == DEAD ? "an already freed" : "an unknown", g.cur->tid, g.cur->name); }
        abort();
    }
    if (g.running && b->counted) {
        if (on()) access_range((uptr)p, b->size, true, PC());
        Rt r;
        heap_blocks--; heap_bytes -= b->size;
        if (livemap) livemap->erase((uptr)p);
        shadow_free((uptr)p, b->size);
        b->magic = DEAD;
        quarantine_bytes += b->size;
        if (quarantine_bytes < (128u << 20)) return;      // stays in quarantine until the run ends
        quarantine_bytes -= b->size;
        shadow_clear((uptr)p - RZ, b->size + RZ + RZ - 8);
        free(p - b->aligned);
        return;
    }
    if (g.running) shadow_clear((uptr)p, b->size);
    b->magic = DEAD;
    free(p - b->aligned);
}
i64 live_heap_blocks() { return heap_blocks; }
bool heap_live(const void* p) { uptr a = (uptr)p; return page_of(a)->c[(a & 4095) >> 3].state == 0; }
i64 live_heap_bytes() { return heap_bytes; }
void set_heap_limit(i64 b) { heap_limit = b; }
std::string live_heap_report() {
    Rt r; std::string s; int k = 0;
    if (livemap) {
        std::map<std::pair<size_t, std::string>, int> agg;
        for (auto& e : *livemap) agg[{e.second.n, describe_pc(e.second.site)}]++;
        for (auto& e : agg) { if (k++ > 8) break; char b[200]; snprintf(b, sizeof b, " %dx%zuB[%s]", e.second, e.first.first, e.first.second.c_str()); s += b; }
    }
    return s;
}

// ------------------------------------------------------------------ run driver
static void on_signal(int sig, siginfo_t* si, void* uc) {
    (void)uc;
    if (!g.sh || g.ending) _exit(79);
    g.in_rt++;
    if (sig == SIGALRM || sig == SIGPROF) fail("hang", "no progress in real time (thread T%d(%s) runs without reaching any scheduling point)", g.cur ? g.cur->tid : -1, g.cur ? g.cur->name : "");
    uptr pc = 0;
#ifdef __x86_64__
    pc = (uptr)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
#endif
    fail("crash", "signal %d (%s) in thread T%d(%s) at [%s], address %s", sig, strsignal(sig), g.cur ? g.cur->tid : -1,
         g.cur ? g.cur->name : "", describe_pc(pc + 1).c_str(), si && (uptr)si->si_addr < 4096 ? "near null" : "invalid");
}

static void setup_strategy() {
    Rng& r = g.srng;
    switch (r.below(8)) {
        case 0: g.strat = SK_PINGPONG; g.p_switch = 400; break;
        case 1: case 2: g.strat = SK_PCT; g.pct_len = 1 << (3 + r.below(9)); g.pct_next = 1 + r.below(g.pct_len); g.p_switch = r.below(20); break;
        case 3: g.strat = SK_BURST; g.p_switch = 4 + r.below(40); break;
        case 4: g.strat = SK_RANDOM; g.p_switch = 1024; break;
        default: g.strat = SK_RANDOM; g.p_switch = 1u << (4 + r.below(7)); break;
    }
    static const u32 stale[4] = {0, 0, 100, 500};
    g.stale_rate = stale[r.below(4)];
}

struct RunSpec { u64 seed; u64 run; int scen; bool replay, record, verbose; std::vector<Delta> deltas; };
static const Scenario* g_sc; static int g_nsc; static u32 g_w[512];
static u64 g_alarm_s = 30;

extern "C" void sim_vm_reset(); extern "C" void sim_libc_init();

[[noreturn]] static void child_run(const RunSpec& rs, Shared* sh) {
    g.sh = sh; g.seed = rs.seed; g.run = rs.run; g.replay = rs.replay; g.record = rs.record; g.verbose = rs.verbose;
    for (int i = 0; i < ST_N; i++) {
        g.st[i].rng.seed(rs.seed * 0x9E3779B97F4A7C15ull + rs.run * 0xD1B54A32D192ED03ull + (u64)i * 0x2545F4914F6CDD1Dull + 77);
    }
    g.srng.seed(rs.seed * 31 + rs.run * 0x9E3779B97F4A7C15ull + 4242);
    for (auto& d : rs.deltas) g.st[d.stream].rep.push_back({d.idx, d.val});
    strncpy(sh->scenario, g_sc[rs.scen].name, 63);
    stack_t ss; ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 65536; ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGPROF, SIGABRT}) sigaction(s, &sa, nullptr);
    {   // watchdog on processor time: a loaded machine must not look like a hang
        struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long)g_alarm_s * (g.verbose ? 4 : 1); setitimer(ITIMER_PROF, &it, nullptr);
        alarm((unsigned)g_alarm_s * 10);
    }
    std::set_terminate(terminate_handler);
    shadow_init(); pcs_init();
    if (!g.replay) setup_strategy();
    {   // swarm parameters that change semantics come from the CFG stream
        static const u64 tp[4] = {1, 1, 5, 40};
        u32 t = choose(ST_CFG, 4, g.replay ? 0 : g.st[ST_CFG].rng.below(4));
        g.tick_plain = tp[t]; g.tick_sync = tp[t] * 8;
    }
    Fiber& f = g.fib[0];
    f.tid = 0; f.st = FS_RUN; f.vc.clear(); f.vc.c[0] = 1; f.rel_fence.clear(); f.acq_pending.clear(); f.view.clear(); strcpy(f.name, "main"); f.prio = 500;
    g.sc_view.clear();
    g.nfib = 1; g.live = 1; g.runmask = 1; g.cur = &f; g.plain_left = 16;
    sim_libc_init();
    g.running = true;
    struct Body { static void go(int scen) noexcept { g_sc[scen].run(); } };
    Body::go(rs.scen);
    g.in_rt++;
    if (g.live > 1) {
        std::string s;
        for (int i = 1; i < g.nfib; i++) if (g.fib[i].st == FS_RUN || g.fib[i].st == FS_BLOCK) { s += " "; s += g.fib[i].name; }
        fail("thread-leak", "%d thread(s) still exist at the end of the run:%s", g.live - 1, s.c_str());
    }
    g.running = false;
    finish_stats();
    sh->status = 1;
    _exit(0);
}

void set_tick(u64 ns) { g.tick_plain = ns; g.tick_sync = ns * 8; }
void finish() { g.in_rt++; g.running = false; finish_stats(); g.sh->status = 1; _exit(0); }

static Shared* new_shared() {
    return (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static void reset_shared(Shared* s) {
    memset(s, 0, offsetof(Shared, ev));
}
static void run_one(const RunSpec& rs, Shared* sh) {
    reset_shared(sh);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) child_run(rs, sh);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (sh->status == 0) {
        sh->status = 3;
        snprintf(sh->msg, sizeof sh->msg, "run process ended abnormally (wait status 0x%x)", st);
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { sh->status = 2; strcpy(sh->kind, "crash"); }
        else if (WIFEXITED(st) && WEXITSTATUS(st) != 78 && WEXITSTATUS(st) != 79) { sh->status = 2; strcpy(sh->kind, "exit"); snprintf(sh->msg, sizeof sh->msg, "the code under test ended the process with exit status %d", WEXITSTATUS(st)); }
    }
}
static int pick_scenario(u64 seed, u64 run) {
    u32 tot = 0; for (int i = 0; i < g_nsc; i++) tot += g_w[i];
    Rng r; r.seed(seed ^ (run * 0xA24BAED4963EE407ull) ^ 0x51ED); u32 x = r.below(tot);
    for (int i = 0; i < g_nsc; i++) { if (x < g_w[i]) return i; x -= g_w[i]; }
    return 0;
}
static int scen_by_name(const char* n) { for (int i = 0; i < g_nsc; i++) if (!strcmp(g_sc[i].name, n)) return i; return -1; }
static std::string jesc(const char* s) {
    std::string o; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o;
}
static void print_result(FILE* out, Shared* sh, u64 run) {
    fprintf(out, "{\"run\":%llu,\"status\":%u,\"kind\":\"%s\",\"scenario\":\"%s\",\"hash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"sim_ns\":%llu,\"sample\":\"%s\",\"msg\":\"%s\"}\n",
            (unsigned long long)run, sh->status, jesc(sh->kind).c_str(), jesc(sh->scenario).c_str(), (unsigned long long)sh->trace_hash,
            (unsigned long long)sh->steps, (unsigned long long)sh->switches, (unsigned long long)sh->sim_ns, jesc(sh->sample).c_str(), jesc(sh->msg).c_str());
}

int main(int argc, char** argv, const Scenario* sc, int n) {
    // the same addresses every time: what code reads from memory nobody wrote is then the same too
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC") && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_NO_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
    g_sc = sc; g_nsc = n;
    for (int i = 0; i < n; i++) g_w[i] = sc[i].weight;
    u64 seed = 1, first = 0, stride = 1, count = 100, keep = 1; double tmax = 1e9; const char* only = nullptr; const char* replay = nullptr; const char* hashes = nullptr;
    bool verbose = false, record = false; i64 single = -1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)"0"; };
        if (a == "--seed") seed = strtoull(nx(), 0, 10);
        else if (a == "--first") first = strtoull(nx(), 0, 10);
        else if (a == "--stride") stride = strtoull(nx(), 0, 10);
        else if (a == "--count") count = strtoull(nx(), 0, 10);
        else if (a == "--keep") keep = strtoull(nx(), 0, 10);
        else if (a == "--time") tmax = atof(nx());
        else if (a == "--scenario") only = nx();
        else if (a == "--only") {      // restrict to a comma separated list of scenarios
            std::string l = std::string(",") + nx() + ",";
            for (int k = 0; k < n; k++) if (l.find(std::string(",") + sc[k].name + ",") == std::string::npos) g_w[k] = 0;
        }
        else if (a == "--run") single = (i64)strtoull(nx(), 0, 10);
        else if (a == "--record") record = true;
        else if (a == "--replay") replay = nx();
        else if (a == "--hashes") hashes = nx();
        else if (a == "--alarm") g_alarm_s = strtoull(nx(), 0, 10);
        else if (a == "--verbose") verbose = true;
        else if (a == "--list") { for (int k = 0; k < n; k++) printf("%s %u\n", sc[k].name, sc[k].weight); return 0; }
    }
    // results go to the original stdout; whatever the code under test prints is discarded
    int ofd = dup(1); FILE* out = fdopen(ofd, "w");
    FILE* dn = fopen("/dev/null", "w"); dup2(fileno(dn), 1); if (!getenv("SIM_STDERR")) dup2(fileno(dn), 2);
    setenv("TZ", "UTC", 1);
    Shared* sh = new_shared();
    if (replay) {
        RunSpec rs{}; rs.replay = true; rs.record = false; rs.verbose = verbose; rs.scen = 0; rs.seed = seed;
        FILE* f = fopen(replay, "r"); if (!f) { fprintf(out, "cannot open replay file\n"); return 2; }
        char line[4096];
        while (fgets(line, sizeof line, f)) {
            unsigned s, i, v; char nm[64]; unsigned long long x;
            if (line[0] == '#') continue;
            if (sscanf(line, "d %u %u %u", &s, &i, &v) == 3) { if (s < ST_N) rs.deltas.push_back({s, i, v}); }
            else if (sscanf(line, "scenario %63s", nm) == 1) rs.scen = scen_by_name(nm);
            else if (sscanf(line, "run %llu", &x) == 1) rs.run = x;
            else if (sscanf(line, "seed %llu", &x) == 1) rs.seed = x;
        }
        fclose(f);
        if (rs.scen < 0) { fprintf(out, "unknown scenario\n"); return 2; }
        run_one(rs, sh);
        print_result(out, sh, rs.run);
        if (verbose) fwrite(sh->ev, 1, sh->evlen, out);
        fflush(out);
        return sh->status == 1 ? 0 : sh->status == 2 ? 1 : 2;
    }
    if (single >= 0) {
        RunSpec rs{}; rs.seed = seed; rs.run = (u64)single; rs.record = record; rs.verbose = verbose;
        rs.scen = only ? scen_by_name(only) : pick_scenario(seed, rs.run);
        run_one(rs, sh);
        print_result(out, sh, rs.run);
        if (record) for (u32 i = 0; i < sh->ndelta; i++) fprintf(out, "d %u %u %u\n", sh->delta[i].stream, sh->delta[i].idx, sh->delta[i].val);
        if (record && sh->delta_overflow) fprintf(out, "overflow\n");
        if (verbose) fwrite(sh->ev, 1, sh->evlen, out);
        fflush(out);
        return sh->status == 1 ? 0 : sh->status == 2 ? 1 : 2;
    }
    FILE* hf = hashes ? fopen(hashes, "wb") : nullptr;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    u64 runs = 0, viol = 0, nontriv = 0, steps = 0, sw = 0, simns = 0, acc = 0; u64 faults[NFAULT] = {0}; u64 runs_with_fault[NFAULT] = {0}; u32 maxthr = 0; u64 det_checked = 0, det_bad = 0;
    std::map<std::string, u64> probes, scen; double slow_s = 0; u64 slow_run = 0;
    for (u64 k = 0; k < count; k++) {
        RunSpec rs{}; rs.seed = seed; rs.run = first + k * stride;
        rs.scen = only ? scen_by_name(only) : pick_scenario(seed, rs.run);
        struct timespec a0, a1; clock_gettime(CLOCK_MONOTONIC, &a0);
        run_one(rs, sh);
        clock_gettime(CLOCK_MONOTONIC, &a1);
        double w1 = (a1.tv_sec - a0.tv_sec) + (a1.tv_nsec - a0.tv_nsec) / 1e9;
        if (w1 > slow_s) { slow_s = w1; slow_run = rs.run; }
        runs++;
        if (sh->status != 1) {
            viol++;
            print_result(out, sh, rs.run); fflush(out);
            if (sh->status == 2 && viol >= keep) break;
            if (sh->status == 3) break;
        }
        u64 h = sh->trace_hash;
        steps += sh->steps; sw += sh->switches; simns += sh->sim_ns; acc += sh->accesses; if (sh->nontrivial) nontriv++;
        if (sh->max_threads > maxthr) maxthr = sh->max_threads;
        for (int i = 0; i < NFAULT; i++) { faults[i] += sh->fault[i]; if (sh->fault[i]) runs_with_fault[i]++; }
        for (u32 i = 0; i < sh->nprobe; i++) probes[sh->probe[i].name] += sh->probe[i].n;
        scen[sh->scenario]++;
        if (hf) { u64 rec[2] = {h, sh->nontrivial}; fwrite(rec, 16, 1, hf); }
        if (k < 2) print_result(out, sh, rs.run);
        if (k % 97 == 5) {     // determinism self-check: the same seed again, and its recorded choices alone, must give the same event hash
            rs.record = true; run_one(rs, sh); det_checked++; bool bad = sh->trace_hash != h;
            if (!bad && !sh->delta_overflow) { rs.record = false; rs.replay = true; rs.deltas.assign(sh->delta, sh->delta + sh->ndelta); run_one(rs, sh); bad = sh->trace_hash != h; }
            if (bad) { det_bad++; fprintf(out, "{\"nondeterministic_run\":%llu}\n", (unsigned long long)rs.run); }
        }
        clock_gettime(CLOCK_MONOTONIC, &t1);
        if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > tmax) break;
    }
    if (hf) fclose(hf);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    fprintf(out, "{\"stats\":1,\"runs\":%llu,\"nontrivial\":%llu,\"steps\":%llu,\"switches\":%llu,\"accesses\":%llu,\"sim_ns\":%llu,\"max_threads\":%u,\"det_checked\":%llu,\"det_bad\":%llu,\"wall_s\":%.3f,\"slow_s\":%.3f,\"slow_run\":%llu,\"faults\":{",
            (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)acc, (unsigned long long)simns, maxthr,
            (unsigned long long)det_checked, (unsigned long long)det_bad, (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9, slow_s, (unsigned long long)slow_run);
    bool c = false;
    for (int i = 1; i < NFAULT; i++) if (faults[i]) { fprintf(out, "%s\"%s\":[%llu,%llu]", c ? "," : "", fault_names[i], (unsigned long long)faults[i], (unsigned long long)runs_with_fault[i]); c = true; }
    fprintf(out, "},\"probes\":{"); c = false;
    for (auto& p : probes) { fprintf(out, "%s\"%s\":%llu", c ? "," : "", jesc(p.first.c_str()).c_str(), (unsigned long long)p.second); c = true; }
    fprintf(out, "},\"scenarios\":{"); c = false;
    for (auto& p : scen) { fprintf(out, "%s\"%s\":%llu", c ? "," : "", p.first.c_str(), (unsigned long long)p.second); c = true; }
    fprintf(out, "}}\n");
    fflush(out);
    return viol ? 1 : 0;
}
}  // namespace sim

// ==================================================================== TSan ABI
using namespace sim;
SIM_EXPORT void __tsan_init() {}
SIM_EXPORT void __tsan_func_entry(void*) {}
SIM_EXPORT void __tsan_func_exit() {}
SIM_EXPORT void __tsan_ignore_thread_begin() {}
SIM_EXPORT void __tsan_ignore_thread_end() {}
#define ACC(n) \
    SIM_EXPORT void __tsan_read##n(void* a) { plain((uptr)a, n, false, PC()); } \
    SIM_EXPORT void __tsan_write##n(void* a) { plain((uptr)a, n, true, PC()); } \
    SIM_EXPORT void __tsan_read_write##n(void* a) { plain((uptr)a, n, false, PC()); plain((uptr)a, n, true, PC()); } \
    SIM_EXPORT void __tsan_unaligned_read##n(void* a) { plain((uptr)a, n, false, PC()); } \
    SIM_EXPORT void __tsan_unaligned_write##n(void* a) { plain((uptr)a, n, true, PC()); } \
    SIM_EXPORT void __tsan_unaligned_read_write##n(void* a) { plain((uptr)a, n, false, PC()); plain((uptr)a, n, true, PC()); } \
    SIM_EXPORT void __tsan_volatile_read##n(void* a) { plain((uptr)a, n, false, PC()); } \
    SIM_EXPORT void __tsan_volatile_write##n(void* a) { plain((uptr)a, n, true, PC()); } \
    SIM_EXPORT void __tsan_unaligned_volatile_read##n(void* a) { plain((uptr)a, n, false, PC()); } \
    SIM_EXPORT void __tsan_unaligned_volatile_write##n(void* a) { plain((uptr)a, n, true, PC()); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
SIM_EXPORT void __tsan_vptr_read(void** a) { plain((uptr)a, 8, false, PC()); }
SIM_EXPORT void __tsan_vptr_update(void** a, void* v) { if (*a != v) plain((uptr)a, 8, true, PC()); }
SIM_EXPORT void __tsan_read_range(void* a, size_t n) { access_range((uptr)a, n, false, PC()); }
SIM_EXPORT void __tsan_write_range(void* a, size_t n) { access_range((uptr)a, n, true, PC()); }
SIM_EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n) { if (on()) { access_range((uptr)s, n, false, PC()); access_range((uptr)d, n, true, PC()); } return memcpy(d, s, n); }
SIM_EXPORT void* __tsan_memmove(void* d, const void* s, size_t n) { if (on()) { access_range((uptr)s, n, false, PC()); access_range((uptr)d, n, true, PC()); } return memmove(d, s, n); }
SIM_EXPORT void* __tsan_memset(void* d, int c, size_t n) { if (on()) access_range((uptr)d, n, true, PC()); return memset(d, c, n); }

#define ATOM(bits, T) \
    SIM_EXPORT T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return a_load<T>(a, mo, PC()); } \
    SIM_EXPORT void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_store<T>(a, v, mo, PC()); } \
    SIM_EXPORT T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [&](T) { return v; }); } \
    SIM_EXPORT T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [&](T o) { return (T)(o + v); }); } \
    SIM_EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [&](T o) { return (T)(o - v); }); } \
    SIM_EXPORT T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [&](T o) { return (T)(o & v); }); } \
    SIM_EXPORT T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [&](T o) { return (T)(o | v); }); } \
    SIM_EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [&](T o) { return (T)(o ^ v); }); } \
    SIM_EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return a_rmw<T>(a, mo, PC(), [&](T o) { return (T)~(o & v); }); } \
    SIM_EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int f) { return a_cas<T>(a, c, v, mo, f, false, PC()); } \
    SIM_EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int f) { return a_cas<T>(a, c, v, mo, f, true, PC()); } \
    SIM_EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int f) { a_cas<T>(a, &c, v, mo, f, false, PC()); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
SIM_EXPORT void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
SIM_EXPORT void __tsan_atomic_signal_fence(int) {}

// ==================================================================== heap
#define XP __attribute__((visibility("default")))
XP void* operator new(size_t n) { return heap_alloc(n, 16, PC(), false); }
XP void* operator new[](size_t n) { return heap_alloc(n, 16, PC(), false); }
XP void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, PC(), true); }
XP void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_alloc(n, 16, PC(), true); }
XP void* operator new(size_t n, std::align_val_t a) { return heap_alloc(n, (size_t)a, PC(), false); }
XP void* operator new[](size_t n, std::align_val_t a) { return heap_alloc(n, (size_t)a, PC(), false); }
XP void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap_alloc(n, (size_t)a, PC(), true); }
XP void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return heap_alloc(n, (size_t)a, PC(), true); }
XP void operator delete(void* p) noexcept { heap_free(p); }
XP void operator delete[](void* p) noexcept { heap_free(p); }
XP void operator delete(void* p, size_t) noexcept { heap_free(p); }
XP void operator delete[](void* p, size_t) noexcept { heap_free(p); }
XP void operator delete(void* p, const std::nothrow_t&) noexcept { heap_free(p); }
XP void operator delete[](void* p, const std::nothrow_t&) noexcept { heap_free(p); }
XP void operator delete(void* p, std::align_val_t) noexcept { heap_free(p); }
XP void operator delete[](void* p, std::align_val_t) noexcept { heap_free(p); }
XP void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_free(p); }
XP void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_free(p); }
