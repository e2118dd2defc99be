// Shared by the block harnesses.
#pragma once
#include "sim.hpp"
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <functional>
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <complex>
#include <cstring>
#include <cmath>
using sim::Quiet;
using cler::Error; using cler::Empty; using cler::Result; using cler::ChannelBase; using cler::Channel; using cler::BlockRunner;
#define NOTSAN __attribute__((no_sanitize("thread")))

static inline unsigned C(unsigned n) { Quiet z; return sim::cfg(n); }
static inline unsigned Wk(unsigned n) { Quiet z; return sim::work(n); }
// a graph that moves nothing for this many steps stands still; a slow one is not penalised
static inline void progress(uint64_t n = 3000000) { sim::set_step_limit(sim::steps() + n, "stalled"); }

static inline cler::FlowGraphConfig random_fg_config() {
    Quiet z; cler::FlowGraphConfig c;
    c.scheduler = sim::cfg(2) ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock;
    c.num_workers = 2 + sim::cfg(2);
    c.adaptive_sleep = sim::cfg(4) == 0; c.adaptive_sleep_max_us = 100; c.adaptive_sleep_fail_threshold = 3;
    static const size_t mc[4] = {4, 1, 2, 8}; c.max_calls_per_tick = mc[sim::cfg(4)];
    return c;
}
static inline const char* cfg_name(const cler::FlowGraphConfig& c) { return c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "thread per block"; }
template <class F> static void until(F done, uint64_t timeout = 0) {
    struct A { F* f; } a{&done};
    sim::block_until([](void* p) { Quiet z; return (bool)(*((A*)p)->f)(); }, &a, timeout);
}

// A channel that tells the harness when elements pass.
template <class T> struct TapChannel : ChannelBase<T> {
    Channel<T> ch; std::function<void(const T*, size_t)> pushed; std::function<void(size_t)> popped; T* w = nullptr; size_t wn = 0; T* w2 = nullptr;
    explicit TapChannel(size_t n) : ch(n) {}
    NOTSAN void in_(const T* p, size_t n) { if (n && pushed) { Quiet z; pushed(p, n); } }
    NOTSAN void out_(size_t n) { if (n && popped) { Quiet z; popped(n); } }
    size_t size() const override { return ch.size(); }
    size_t space() const override { return ch.space(); }
    void push(const T& v) override { T c = v; ch.push(v); in_(&c, 1); }
    void pop(T& v) override { ch.pop(v); out_(1); }
    bool try_push(const T& v) override { T c = v; if (!ch.try_push(v)) return false; in_(&c, 1); return true; }
    bool try_pop(T& v) override { if (!ch.try_pop(v)) return false; out_(1); return true; }
    size_t writeN(const T* d, size_t n) override { size_t k = ch.writeN(d, n); in_(d, k); return k; }
    size_t readN(T* d, size_t n) override { size_t k = ch.readN(d, n); out_(k); return k; }
    size_t peek_write(T*& a, size_t& n, T*& b, size_t& m) override { size_t k = ch.peek_write(a, n, b, m); w = a; wn = n; w2 = b; return k; }
    size_t peek_read(const T*& a, size_t& n, const T*& b, size_t& m) override { return ch.peek_read(a, n, b, m); }
    void commit_read(size_t n) override { ch.commit_read(n); out_(n); }
    NOTSAN void commit_write(size_t n) override { { size_t k = std::min(n, wn); in_(w, k); if (n > k) in_(w2, n - k); } ch.commit_write(n); }
    std::pair<const T*, std::size_t> read_dbf() override { return ch.read_dbf(); }
    NOTSAN std::pair<T*, std::size_t> write_dbf() override { auto r = ch.write_dbf(); w = r.first; wn = r.second; w2 = nullptr; return r; }
};

// wall-clock jumps at chosen moments
struct Jumper {
    std::vector<std::pair<uint64_t, int64_t>> plan; std::thread t;
    void start(unsigned max, uint64_t span) {
        { Quiet z;
          static const int64_t amt[10] = {-3600000000000ll, 3600000000000ll, -1000000, 1000000, 1000000000, -1000000000, 50000000, -50000000, 200000000, -200000000};
          unsigned k = sim::cfg(max + 1); for (unsigned i = 0; i < k; i++) plan.push_back({sim::work((uint32_t)std::min<uint64_t>(span, 4000000000u)), amt[sim::work(10)]}); }
        if (!plan.empty()) t = std::thread([this] { for (auto& p : plan) { sim::sleep_ns(p.first); sim::jump_wall(p.second); } });
    }
    void join() { if (t.joinable()) t.join(); }
};
