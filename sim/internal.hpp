#pragma once
#include "sim.hpp"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cerrno>
#include <vector>
#include <map>
#include <string>
#include <unordered_map>

#define SIM_EXPORT extern "C" __attribute__((visibility("default")))
#define PC() ((uintptr_t)__builtin_return_address(0))
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim {
using uptr = uintptr_t;
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

constexpr int MAXT = 40;
struct VC {
    u32 c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum FState : u8 { FS_FREE, FS_RUN, FS_BLOCK, FS_DONE };

struct Fiber {
    int tid = -1;
    void* sp = nullptr;
    char* stack = nullptr;
    FState st = FS_FREE;
    u64 wake = 0;          // absolute ns; 0 = no timer
    bool timed_out = false;
    void* wait_on = nullptr;
    const char* wait_what = "";
    int join_target = -1;
    bool detached = false, joined = false, killed = false, is_kernel = false;
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    int quiet = 0;
    int err = 0;
    void* eh[2] = {nullptr, nullptr};
    VC vc;                  // happens-before clock
    VC rel_fence;           // clock at last release fence
    VC acq_pending;         // clocks read by relaxed loads, for acquire fences
    bool has_rel_fence = false, has_acq = false;
    VC view;                // extra visibility from seq_cst operations
    bool has_view = false;
    u32 starve = 0; u32 prio = 0;
    u64 last_sleep = 0;
    char name[24] = {0};
    std::unordered_map<void*, void*>* tls = nullptr;
};

enum StreamId : u8 { ST_CFG, ST_WORK, ST_SCHED, ST_PLAIN, ST_MEM, ST_TIME, ST_F0, ST_N = ST_F0 + NFAULT };

struct Delta { u32 stream, idx, val; };
constexpr size_t MAX_DELTA = 1 << 20;
constexpr size_t EVLOG = 1 << 20;
constexpr int MAX_PROBE = 128;

struct Shared {   // result block shared between the driving process and the run's process
    volatile u32 status;        // 0 none, 1 ok, 2 violation, 3 harness error
    char kind[64];
    char msg[6000];
    char scenario[64];
    char sample[1024];
    u32 nontrivial;
    u64 steps, switches, sync_ops, accesses, trace_hash, sched_hash, sim_ns, races_checked, stale_reads;
    u32 max_threads;
    u64 fault[NFAULT];
    u32 nprobe;
    struct { char name[48]; u64 n; } probe[MAX_PROBE];
    u32 ndelta; u32 delta_overflow;
    u32 evlen;
    char ev[EVLOG];
    Delta delta[MAX_DELTA];
};

struct Rng {
    u64 s[2];
    void seed(u64 x) {
        auto sm = [&]() { x += 0x9E3779B97F4A7C15ull; u64 z = x; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); };
        s[0] = sm(); s[1] = sm();
    }
    u64 next() {
        u64 a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
        return s[1] + b;
    }
    u32 below(u32 n) { return n <= 1 ? 0 : (u32)(((next() >> 32) * (u64)n) >> 32); }
};

struct Stream {
    Rng rng;
    u32 idx = 0;
    std::vector<std::pair<u32, u32>> rep;   // replay deltas sorted by idx
    size_t rpos = 0;
};

enum Strat : u8 { SK_RANDOM, SK_PCT, SK_BURST, SK_PINGPONG };

struct G {
    bool running = false;
    int in_rt = 0;
    bool replay = false, record = false, verbose = false;
    u64 seed = 0, run = 0;
    Fiber* cur = nullptr;
    Fiber fib[MAXT];
    u64 runmask = 0;            // runnable (incl. current)
    int nfib = 0, live = 0;
    u64 now = 0, next_timer = ~0ull;
    i64 wall_off = 0;
    u64 tick_plain = 1, tick_sync = 10;
    u64 steps = 0, accesses = 0, switches = 0, sync_ops = 0;
    u64 step_limit = 3000000; const char* step_kind = "livelock";
    u32 quantum = 0, quantum_acc = 0, lonely = 0;
    i64 plain_left = 1 << 30;   // accesses until next plain scheduling decision
    bool plain_on = true;
    bool coop = false;
    bool weak = false; u32 stale_rate = 0;
    Strat strat = SK_RANDOM; u32 p_switch = 64; u32 pct_next = 0; u32 pct_len = 0;
    u64 hash = 1469598103934665603ull, shash = 1469598103934665603ull;
    Stream st[ST_N];
    u32 rate[NFAULT] = {0};
    Rng srng;                   // strategy randomness (record mode only)
    VC sc_view;
    Shared* sh = nullptr;
    void (*sleep_cb)(int, u64) = nullptr;
    u64 timer_slack = 0;
    bool ending = false;
};
extern G g;

struct Rt { Rt() { g.in_rt++; } ~Rt() { g.in_rt--; } };
static inline bool on() { return g.running && !g.in_rt && g.cur->quiet == 0; }
static inline bool live() { return g.running && !g.in_rt; }   // interposed calls: also when quiet

u32 choose(int stream, u32 n, u32 recorded_value);   // value decided in record mode / from replay
u32 choose_uniform(int stream, u32 n);
void sched_point(u32 op);
void block_current(const char* what, void* on, u64 wake_abs);   // returns when made runnable
void make_runnable(Fiber* f);
void wake_all(void* on);
int wake_n(void* on, int n);
int spawn(void* (*fn)(void*), void* arg, const char* name, bool kernel);
void evlog(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_mix(u64 x);
void vc_release_to(VC& dst);    // dst |= cur.vc ; cur epoch++
void vc_acquire_from(const VC& src);
void shadow_clear(uptr a, size_t n);
void shadow_free(uptr a, size_t n);
void shadow_redzone(uptr a, size_t n);
void shadow_alias(uptr dup, uptr prim, size_t n);
void shadow_unmap(uptr a, size_t n);
void access_range(uptr a, size_t n, bool wr, uptr pc);
void rt_store8(u8* p, u8 v);     // release store on behalf of the runtime
long sim_futex(u32* a, int op, u32 v, const struct timespec* ts);
void sleep_until_abs(u64 abs_ns, const char* what);
std::string describe_pc(uptr pc);
void file_reset();
[[noreturn]] void run_end();

// resources (vm.cpp / fs.cpp / net.cpp)
int  res_live_fds(); int res_live_maps();
bool simfd_is_file(int fd); bool simfd_is_sock(int fd);
long file_read(int fd, void* b, size_t n); long file_write(int fd, const void* b, size_t n);
long file_seek(int fd, i64 off, int wh); int file_close(int fd);
int  sock_close(int fd);
}  // namespace sim
