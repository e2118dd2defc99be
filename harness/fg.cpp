// C06 C07 C09 C10 C11 C12 C13: the real FlowGraph with the real desktop task policy.
#include "sim.hpp"
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include "cler_desktop_utils.hpp"
#include "cler_utils.hpp"
#include "desktop_blocks/utils/throughput.hpp"
#include <cstdarg>
#include <sstream>
#include <memory>
#include <vector>
#include <system_error>

using sim::Quiet;
using cler::Error; using cler::Empty; using cler::Result;

enum Kind { SCRIPT, SOURCE, PASS, SINK };
enum { O_OK, O_SAMP, O_SPACE, O_BOTH, O_PROC, O_BAD, O_UNK, O_FATAL };
static bool starved(int o) { return o == O_SAMP || o == O_SPACE || o == O_BOTH; }
static Error err_of(int o, int f) {
    static const Error fat[5] = {Error::TERMINATE_FLOWGRAPH, Error::TERM_InvalidChannelIndex, Error::TERM_ProcedureError, Error::TERM_IOError, Error::TERM_EOFReached};
    switch (o) { case O_SAMP: return Error::NotEnoughSamples; case O_SPACE: return Error::NotEnoughSpace; case O_BOTH: return Error::NotEnoughSpaceOrSamples;
        case O_PROC: return Error::ProcedureError; case O_BAD: return Error::BadData; case O_UNK: return Error::Unknown; default: return fat[f % 5]; }
}
struct World;
using Ch = cler::Channel<uint32_t, 4>;

struct Node : cler::BlockBase {
    World& w; int id; Kind kind = SCRIPT;
    Ch* in = nullptr; Ch* out = nullptr;
    uint32_t wt[7] = {1, 0, 0, 0, 0, 0, 0};
    uint64_t fatal_at = 0; int fatal_kind = 0;     // 1-based call of the current run
    uint64_t dwell_ns = 0; bool points = false;
    // block state without any locking of its own
    uint64_t st_a = 0, st_b = 0; uint32_t next = 0;
    // book-keeping (quiet)
    bool in_call = false; int in_tid = -1, owner = -1;
    uint64_t begun = 0, ended = 0, ok = 0, bad = 0, run_begun = 0, run_ok = 0, run_bad = 0, moved = 0, first_ns = 0, last_ns = 0, dead_calls = 0;
    uint64_t after_mark = 0; int last_out = -1;
    uint64_t consec = 0, consec_max = 0, since_success = 0; double prev_backoff = 0; bool had_success = false; uint64_t max_consec_run = 0; uint64_t n_backoff = 0;
    uint64_t starving_since = 0;
    Node(World& w_, int i) : BlockBase(("node" + std::to_string(i)).c_str()), w(w_), id(i) {}
    Result<Empty, Error> procedure();
};

struct IFG {
    virtual ~IFG() {}
    virtual void run(const cler::FlowGraphConfig&) = 0;
    virtual void run_for(std::chrono::nanoseconds, const cler::FlowGraphConfig&) = 0;
    virtual void stop() = 0;
    virtual bool is_stopped() = 0;
    virtual void set_cb(void (*)(void*), void*) = 0;
    virtual const cler::BlockExecutionStats& stats(size_t) = 0;
    virtual void report() = 0;
};
struct World {
    std::vector<std::unique_ptr<Node>> n;
    std::vector<std::unique_ptr<Ch>> ch;
    std::unique_ptr<IFG> fg;
    cler::FlowGraphConfig cfg;
    uint64_t after_limit = ~0ull;   // calls per block allowed to begin after the graph reports itself stopped
    std::vector<std::vector<uint64_t>> gap;   // gap[i][j]: calls of j by i's worker since i's last call
    uint64_t gap_limit = 0;
    bool check_sleep = false;
    int last_node_of_tid[64];
    int cb_calls = 0; bool cb_bad = false;
    World() { for (int& x : last_node_of_tid) x = -1; }
};
static World* W;

Result<Empty, Error> Node::procedure() {
    int o = O_OK; bool fatal = false; uint64_t dwell = 0;
    {
        Quiet z;
        int t = sim::tid();
        if (in_call) sim::fail("overlap", "block %d of %zu is entered by T%d while T%d is still inside it", id, w.n.size(), t, in_tid);
        in_call = true; in_tid = t; begun++; run_begun++;
        if (!first_ns) first_ns = sim::now_ns();
        if (w.after_limit != ~0ull && w.fg->is_stopped() && ++after_mark > w.after_limit)
            sim::fail("late-call", "block %d begins call number %llu after the graph was stopped (at most %llu may begin)", id, (unsigned long long)after_mark, (unsigned long long)w.after_limit);
        if (fatal_at && run_begun > fatal_at) sim::fail("failed-block-called", "block %d returned a fatal error and is called again", id);
        if (w.gap_limit) {
            for (size_t i = 0; i < w.n.size(); i++) if ((int)i != id && w.n[i]->owner == t && ++w.gap[i][id] > w.gap_limit)
                sim::fail("starvation", "worker T%d called block %d %llu times since it last called block %zu (batch limit %zu)", t, id, (unsigned long long)w.gap[i][id], i, w.cfg.max_calls_per_tick);
            for (auto& g : w.gap[id]) g = 0;
        }
        owner = t; w.last_node_of_tid[t] = id;
        if (fatal_at && run_begun == fatal_at) fatal = true;
        if (dwell_ns && sim::work(2)) dwell = 1 + sim::work((uint32_t)dwell_ns);
        if (w.check_sleep && w.cfg.adaptive_sleep) {
            double cur = w.fg->stats(id).current_adaptive_sleep_us.load();
            if (cur > 0 && consec_max <= w.cfg.adaptive_sleep_fail_threshold)
                sim::fail("early-backoff", "block %d has back-off %.2f us after at most %llu starved calls in a row; the threshold is %zu", id, cur, (unsigned long long)consec_max, w.cfg.adaptive_sleep_fail_threshold);
            if (cur > w.cfg.adaptive_sleep_max_us * 1.0001)
                sim::fail("sleep-limit", "block %d has back-off %.2f us, above the maximum %.2f us", id, cur, w.cfg.adaptive_sleep_max_us);
        }
    }
    // unsynchronised state: each call must see what the previous one wrote
    uint64_t a = st_a, b = st_b;
    if (a * 3 != b) sim::fail("stale-state", "block %d sees a half-written state of its previous call (%llu, %llu)", id, (unsigned long long)a, (unsigned long long)b);
    if (points) sim::point();
    st_a = a + 1;
    if (dwell) std::this_thread::sleep_for(std::chrono::nanoseconds(dwell));
    if (points) sim::point();
    st_b = b + 3;
    switch (kind) {
        case SCRIPT: { Quiet z; o = sim::work_w(wt, 7); break; }
        case SOURCE: {
            size_t k; { Quiet z; k = sim::work_range(1, 3); }
            size_t did = 0; while (did < k && out->try_push(next)) { next++; did++; }
            o = did ? O_OK : O_SPACE; Quiet z; moved += did; break;
        }
        case PASS: {
            size_t k; { Quiet z; k = sim::work_range(1, 3); }
            size_t m = std::min(in->size(), out->space()); if (m > k) m = k;
            uint32_t buf[4]; size_t g = in->readN(buf, m); out->writeN(buf, g);
            o = g ? O_OK : O_BOTH; Quiet z; moved += g; break;
        }
        case SINK: {
            uint32_t v; size_t did = 0; size_t k; { Quiet z; k = sim::work_range(1, 4); }
            while (did < k && in->try_pop(v)) { if (v != next) sim::fail("stream", "the sink expects element %u and gets %u", next, v); next++; did++; }
            o = did ? O_OK : O_SAMP; Quiet z; moved += did; break;
        }
    }
    if (fatal) o = O_FATAL;
    Quiet z;
    in_call = false; ended++; last_out = o; last_ns = sim::now_ns();
    if (o == O_OK) { ok++; run_ok++; consec = 0; had_success = true; } else { bad++; run_bad++; }
    if (starved(o)) { consec++; if (consec > consec_max) consec_max = consec; dead_calls++; }
    if (sim::verbose()) sim::note("block %d returns %d", id, o);
    if (o == O_OK) return Empty{};
    return err_of(o, fatal_kind);
}

template <class Pol, class Seq> struct FGImpl;
template <class Pol, size_t... I> struct FGImpl<Pol, std::index_sequence<I...>> : IFG {
    template <size_t> using R = cler::BlockRunner<Node>;
    using FG = cler::FlowGraph<Pol, R<I>...>;
    FG fg;
    FGImpl(World& w) : fg(cler::BlockRunner<Node>(w.n[I].get())...) {}
    // the configuration is the caller's: it changes and goes as soon as run() has returned
    void run(const cler::FlowGraphConfig& c) override { auto p = std::make_unique<cler::FlowGraphConfig>(c); fg.run(*p); p->max_calls_per_tick = 0; p->adaptive_sleep = !c.adaptive_sleep; p->collect_detailed_stats = !c.collect_detailed_stats; p->num_workers = 1; p->adaptive_sleep_max_us = 9e6; }
    void run_for(std::chrono::nanoseconds d, const cler::FlowGraphConfig& c) override { fg.run_for(d, c); }
    void stop() override { fg.stop(); }
    bool is_stopped() override { return fg.is_stopped(); }
    void set_cb(void (*f)(void*), void* x) override { fg.set_on_err_terminate_cb(f, x); }
    const cler::BlockExecutionStats& stats(size_t i) override { return fg.stats()[i]; }
    void report() override { if constexpr (std::is_same_v<Pol, cler::DesktopTaskPolicy>) cler::print_flowgraph_execution_report(fg); }
};
static unsigned C(unsigned n) { Quiet z; return sim::cfg(n); }
static unsigned Wk(unsigned n) { Quiet z; return sim::work(n); }

static const int sizes[] = {1, 2, 3, 4, 5, 7, 9, 11, 12};
static void make_graph(World& w) {
    using P = cler::DesktopTaskPolicy;
    switch (w.n.size()) {
        case 1: w.fg.reset(new FGImpl<P, std::make_index_sequence<1>>(w)); break;
        case 2: w.fg.reset(new FGImpl<P, std::make_index_sequence<2>>(w)); break;
        case 3: w.fg.reset(new FGImpl<P, std::make_index_sequence<3>>(w)); break;
        case 4: w.fg.reset(new FGImpl<P, std::make_index_sequence<4>>(w)); break;
        case 5: w.fg.reset(new FGImpl<P, std::make_index_sequence<5>>(w)); break;
        case 7: w.fg.reset(new FGImpl<P, std::make_index_sequence<7>>(w)); break;
        case 9: w.fg.reset(new FGImpl<P, std::make_index_sequence<9>>(w)); break;
        case 11: w.fg.reset(new FGImpl<P, std::make_index_sequence<11>>(w)); break;
        case 12: w.fg.reset(new FGImpl<P, std::make_index_sequence<12>>(w)); break;
    }
}
static void world_nodes(World& w, int n) { for (int i = 0; i < n; i++) w.n.push_back(std::make_unique<Node>(w, i)); w.gap.assign(n, std::vector<uint64_t>(n, 0)); W = &w; }

static void random_config(World& w) {
    Quiet z;
    auto& c = w.cfg;
    c.scheduler = sim::cfg(2) ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock;
    c.num_workers = 2 + sim::cfg(3); if (sim::cfg(4) == 0) c.num_workers = 2 + sim::cfg(11);
    c.adaptive_sleep = sim::cfg(3) == 0;
    static const double mu[4] = {1.5, 2.0, 4.0, 1.2}; c.adaptive_sleep_multiplier = mu[sim::cfg(4)];
    static const double mx[4] = {300, 100, 40, 500}; c.adaptive_sleep_max_us = mx[sim::cfg(4)];
    static const size_t th[4] = {10, 3, 1, 0}; c.adaptive_sleep_fail_threshold = th[sim::cfg(4)];
    c.collect_detailed_stats = sim::cfg(2);
    static const size_t mc[6] = {4, 1, 2, 3, 8, 16}; c.max_calls_per_tick = mc[sim::cfg(6)];
    if (sim::cfg(16) == 0) { unsigned k = sim::cfg(3); c = k == 0 ? cler::flowgraph_config::embedded_optimized() : k == 1 ? cler::flowgraph_config::desktop_performance() : cler::flowgraph_config::thread_per_block_adaptive_sleep(); }
    c.pin_workers = sim::cfg(4) == 0;
    if (c.pin_workers) sim::set_rate(sim::F_AFFINITY, 300);
}
static std::string cfg_str(World& w) {
    auto& c = w.cfg; char b[200];
    snprintf(b, sizeof b, "%zu blocks, %s, %zu workers, batch %zu%s%s", w.n.size(), c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "thread per block", c.num_workers, c.max_calls_per_tick,
             c.adaptive_sleep ? ", adaptive sleep" : "", c.collect_detailed_stats ? ", stats" : "");
    return b;
}
static void random_profile(World& w, bool soft = true) {
    Quiet z;
    for (auto& n : w.n) {
        switch (sim::cfg(6)) {
            case 0: break;                                             // always succeeds
            case 1: { uint32_t x[7] = {0, 1, 1, 1, 0, 0, 0}; memcpy(n->wt, x, sizeof x); break; }   // always starved
            case 2: { uint32_t x[7] = {3, 1, 0, 0, 0, 0, 0}; memcpy(n->wt, x, sizeof x); break; }
            case 3: { uint32_t x[7] = {1, 4, 1, 0, 0, 0, 0}; memcpy(n->wt, x, sizeof x); break; }
            case 4: { uint32_t x[7] = {2, 1, 1, 1, 1, 1, 1}; memcpy(n->wt, x, sizeof x); break; }
            case 5: { uint32_t x[7] = {0, 0, 0, 0, 1, 1, 1}; memcpy(n->wt, x, sizeof x); break; }
        }
        if (!soft) { n->wt[4] = n->wt[5] = n->wt[6] = 0; if (!(n->wt[0] | n->wt[1] | n->wt[2] | n->wt[3])) n->wt[0] = 1; }
        n->points = sim::cfg(3) == 0;
        if (sim::cfg(4) == 0) n->dwell_ns = 20000;
    }
}
static void pipeline(World& w) {
    size_t k = w.n.size();
    for (size_t i = 0; i + 1 < k; i++) { w.ch.push_back(std::make_unique<Ch>()); w.n[i]->out = w.ch[i].get(); w.n[i + 1]->in = w.ch[i].get(); }
    for (size_t i = 0; i < k; i++) w.n[i]->kind = i == 0 ? SOURCE : i + 1 == k ? SINK : PASS;
    w.n[0]->next = 0; w.n[k - 1]->next = 0;
}
static void begin_run(World& w) {
    Quiet z;
    for (auto& n : w.n) {
        n->run_begun = n->run_ok = n->run_bad = 0; n->first_ns = n->last_ns = 0; n->after_mark = 0; n->consec = n->consec_max = n->n_backoff = 0; n->prev_backoff = 0; n->had_success = false; n->dead_calls = 0; n->owner = -1;
        for (auto& g : w.gap[n->id]) g = 0;
    }
    for (int& x : w.last_node_of_tid) x = -1;
}
static void check_silent(World& w, const char* when) {
    uint64_t c0 = 0, c1 = 0;
    { Quiet z;
      for (auto& n : w.n) { c0 += n->begun; if (n->in_call) sim::fail("running-after-stop", "block %d is still inside a call %s", n->id, when); }
      if (sim::live_threads() != 1) sim::fail("running-after-stop", "%d worker threads still exist %s", sim::live_threads() - 1, when); }
    sim::sleep_ns(300000);
    { Quiet z; for (auto& n : w.n) c1 += n->begun; if (c1 != c0) sim::fail("running-after-stop", "%llu calls were made %s", (unsigned long long)(c1 - c0), when); }
    // side effects are visible to the caller without further synchronisation (checked by the race detector)
    for (auto& n : w.n) if (n->st_a * 3 != n->st_b) sim::fail("stale-state", "the caller sees a half-written state of block %d %s", n->id, when);
}
struct WaitCalls { World* w; uint64_t need; };
static void wait_calls(World& w, uint64_t need) {      // every block called `need` times in this run
    WaitCalls a{&w, need};
    sim::block_until([](void* p) { auto* a = (WaitCalls*)p; for (auto& n : a->w->n) if (n->run_begun < a->need) return false; return true; }, &a, 0);
}
static void wait_total(World& w, uint64_t need) {
    WaitCalls a{&w, need};
    sim::block_until([](void* p) { auto* a = (WaitCalls*)p; uint64_t t = 0; for (auto& n : a->w->n) t += n->run_begun; return t >= a->need; }, &a, 0);
}

// ------------------------------------------------------------------ C06
static void s_excl() {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(9)]); }
    make_graph(w); random_config(w); random_profile(w);
    { Quiet z; sim::set_rate(sim::F_STALL, sim::cfg(3) == 0 ? 3 : 0); sim::sample("%s", cfg_str(w).c_str()); }
    unsigned runs = 1 + C(2);
    for (unsigned r = 0; r < runs; r++) {
        begin_run(w);
        w.fg->run(w.cfg);
        wait_total(w, w.n.size() * (4 + Wk(20)));
        w.fg->stop();
        { Quiet z; for (auto& n : w.n) if (n->in_call) sim::fail("running-after-stop", "block %d is inside a call after stop()", n->id); }
        for (auto& n : w.n) if (n->st_a * 3 != n->st_b) sim::fail("stale-state", "the caller sees a half-written state of block %d", n->id);
        if (C(3) == 0) random_config(w);
    }
    Quiet z; if (w.n.size() > 1) sim::nontrivial();
}
// ------------------------------------------------------------------ C07
static void s_starve() {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(9)]); }
    make_graph(w); random_config(w); random_profile(w);
    { Quiet z; w.gap_limit = 4 * w.cfg.max_calls_per_tick + 32; sim::set_rate(sim::F_STALL, sim::cfg(4) == 0 ? 2 : 0);
      sim::set_step_limit(1500000, "starvation"); sim::sample("%s", cfg_str(w).c_str()); }
    unsigned runs = 1 + (C(4) == 0);
    for (unsigned r = 0; r < runs; r++) {
        begin_run(w);
        w.fg->run(w.cfg);
        wait_calls(w, 3 + Wk(12));
        w.fg->stop();
    }
    Quiet z; sim::nontrivial();
}
static void s_flow() {
    World w; { Quiet z; world_nodes(w, sizes[1 + sim::cfg(8)]); pipeline(w); }
    make_graph(w); random_config(w);
    uint32_t target = 10 + Wk(40);
    { Quiet z; w.gap_limit = 4 * w.cfg.max_calls_per_tick + 32; sim::set_rate(sim::F_STALL, sim::cfg(4) == 0 ? 2 : 0);
      sim::set_step_limit(2500000, "no-progress"); sim::sample("pipeline of %s, %u elements", cfg_str(w).c_str(), target); }
    begin_run(w);
    w.fg->run(w.cfg);
    struct A { Node* n; uint64_t t; } a{w.n.back().get(), target};
    sim::block_until([](void* p) { auto* a = (A*)p; return a->n->moved >= a->t; }, &a, 0);
    w.fg->stop();
    Quiet z; sim::nontrivial();
}
// ------------------------------------------------------------------ C09
static void lifecycle(bool faults) {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(9)]); if (w.n.size() > 1 && sim::cfg(2)) pipeline(w); sim::set_weak(false); }
    random_config(w);
    if (w.n[0]->kind == SCRIPT) random_profile(w); else { Quiet z; for (auto& n : w.n) if (sim::cfg(4) == 0) n->dwell_ns = 30000; }
    make_graph(w); w.after_limit = 1;
    bool may_fail; { Quiet z; may_fail = w.n[0]->kind == SCRIPT && sim::cfg(3) == 0; if (may_fail) w.after_limit = w.cfg.max_calls_per_tick; }
    { Quiet z; sim::set_rate(sim::F_STALL, sim::cfg(3) == 0 ? 2 : 0); sim::set_rate(sim::F_OVERSLEEP, sim::cfg(4) == 0 ? 20 : 0);
      sim::set_step_limit(1500000, "stop-hangs"); sim::sample("%s%s%s", cfg_str(w).c_str(), w.n[0]->kind == SOURCE ? ", pipeline" : "", faults ? ", thread creation failures" : ""); }
    unsigned acts = 1 + C(4);
    bool running = false, failed = false;
    for (unsigned k = 0; k < acts; k++) {
        switch (Wk(6)) {
            case 0:
                w.fg->stop(); running = false; check_silent(w, "after stop()"); break;
            default: {
                if (running) break;              // not started again without a stop, also after a failed start
                begin_run(w);
                if (may_fail) { Quiet z; for (auto& n : w.n) n->fatal_at = 0; if (sim::work(2)) { auto& n = w.n[sim::work((uint32_t)w.n.size())]; n->fatal_at = 1 + sim::work(20); } }
                if (faults) { Quiet z; sim::set_rate(sim::F_THREAD_CREATE, Wk(3) ? 200 : 0); }
                failed = false;
                try { w.fg->run(w.cfg); }
                catch (const std::system_error&) { failed = true; Quiet z; if (!sim::fault_count(sim::F_THREAD_CREATE)) sim::fail("refused", "run() failed although every thread could be created"); sim::probe("start-failed"); }
                { Quiet z; sim::set_rate(sim::F_THREAD_CREATE, 0); }
                running = true;
                if (!failed) switch (Wk(4)) {
                    case 0: break;
                    case 1: sim::sleep_ns(Wk(200000)); break;
                    default: { uint64_t need = 1 + Wk(60); if (!may_fail) wait_total(w, need); else { uint64_t t = 0; for (int i = 0; i < 400 && !w.fg->is_stopped() && t < need; i++) { sim::sleep_ns(2000); Quiet z; t = 0; for (auto& n : w.n) t += n->run_begun; } } break; }
                } else sim::sleep_ns(Wk(100000));
                unsigned how = Wk(8);
                if (how == 0) break;          // leave it as it is
                bool other = how == 1;
                auto stopper = [&] { w.fg->stop(); };
                if (other) { std::thread t(stopper); t.join(); } else stopper();
                running = false; failed = false;
                check_silent(w, "after stop()");
                if (!w.fg->is_stopped()) sim::fail("not-stopped", "is_stopped() is false after stop()");
                if (Wk(3) == 0) { w.fg->stop(); check_silent(w, "after a second stop()"); }
            }
        }
    }
    delete w.fg.get(); w.fg.release();
    check_silent(w, "after the destructor");
    Quiet z; uint64_t c = 0; for (auto& n : w.n) c += n->begun; if (c) sim::nontrivial();
}
static void s_life() { lifecycle(false); }
static void s_life_fault() { lifecycle(true); }

// ------------------------------------------------------------------ C10
static void on_term(void* ctx) {
    Quiet z;
    if (ctx != (void*)&W->cb_calls) sim::fail("callback-context", "the termination callback got a context that was not registered");
    W->cb_calls++;
}
struct Obs { World* w; };
static void s_fatal() {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(9)]); sim::set_weak(false); }
    random_config(w); random_profile(w); make_graph(w);
    bool with_cb = C(5) != 0; w.after_limit = w.cfg.max_calls_per_tick;

    if (with_cb) w.fg->set_cb(on_term, &w.cb_calls);
    unsigned rounds = 1 + C(3);
    { Quiet z; sim::set_rate(sim::F_STALL, sim::cfg(3) == 0 ? 2 : 0); sim::set_step_limit(6000000, "fatal-ignored"); }
    for (unsigned r = 0; r < rounds; r++) {
        int nf; bool early; unsigned restart;
        { Quiet z;
          for (auto& n : w.n) n->fatal_at = 0;
          nf = 1 + (sim::work(4) == 0);
          for (int k = 0; k < nf; k++) { auto& n = w.n[sim::work((uint32_t)w.n.size())]; n->fatal_at = 1 + sim::work(12); n->fatal_kind = sim::work(5); }
          early = sim::work(5) == 0; restart = sim::work(2); w.cb_calls = 0;
          sim::sample("%s, %d failing block(s)%s%s", cfg_str(w).c_str(), nf, with_cb ? "" : ", no callback", early ? ", concurrent stop" : ""); }
        begin_run(w);
        w.fg->run(w.cfg);
        if (early) {
            sim::sleep_ns(Wk(100000));
            w.fg->stop();
            check_silent(w, "after stop()");
        } else {
            struct A { World* w; } a{&w};
            // a failing block makes the graph report itself stopped
            for (;;) { if (w.fg->is_stopped()) break; sim::sleep_ns(500); }
            bool any; { Quiet z; any = false; for (auto& n : w.n) if (n->fatal_at && n->run_begun >= n->fatal_at) any = true; if (!any) sim::fail("spurious-stop", "the graph stopped although no block failed fatally"); }
            if (with_cb) sim::block_until([](void* p) { return ((A*)p)->w->cb_calls > 0; }, &a, 0);
            sim::sleep_ns(20000000);
            uint64_t c0 = 0, c1 = 0;
            { Quiet z; if (!sim::fault_count(sim::F_STALL)) { for (auto& n : w.n) c0 += n->begun; } }
            sim::sleep_ns(2000000);
            { Quiet z; if (c0) { for (auto& n : w.n) c1 += n->begun; if (c1 != c0) sim::fail("late-call", "blocks are still called long after a fatal error"); } }
            if (!w.fg->is_stopped()) sim::fail("not-stopped", "is_stopped() turned false again after a fatal error");
            w.fg->stop();
            check_silent(w, "after a fatal error and stop()");
        }
        { Quiet z;
          bool any = false; for (auto& n : w.n) if (n->fatal_at && n->run_begun >= n->fatal_at) { any = true; if (n->run_begun != n->fatal_at) sim::fail("failed-block-called", "block %d was called again after its fatal error", n->id); }
          if (with_cb && any && w.cb_calls == 0) sim::fail("no-callback", "a block failed fatally and the termination callback was never called");
          if (!any && w.cb_calls) sim::fail("spurious-callback", "the termination callback was called although no block failed fatally");
          if (any) sim::nontrivial(); }
        if (!restart) break;
    }
}
static void s_soft() {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(9)]); }
    random_config(w); make_graph(w);
    { Quiet z; for (auto& n : w.n) { uint32_t x[7]; for (auto& v : x) v = sim::cfg(3); x[1 + sim::cfg(6)] += 2; memcpy(n->wt, x, sizeof x); n->points = sim::cfg(3) == 0; }
      sim::set_step_limit(1500000, "stopped-by-soft-error"); sim::sample("%s, soft errors only", cfg_str(w).c_str()); }
    w.fg->set_cb(on_term, &w.cb_calls);
    begin_run(w);
    w.fg->run(w.cfg);
    wait_calls(w, 8 + Wk(25));
    if (w.fg->is_stopped()) sim::fail("spurious-stop", "the graph reports itself stopped after non-fatal errors only");
    { Quiet z; if (w.cb_calls) sim::fail("spurious-callback", "the termination callback was called for a non-fatal error"); sim::nontrivial(); }
    w.fg->stop();
    { Quiet z; if (w.cb_calls) sim::fail("spurious-callback", "the termination callback was called for a non-fatal error"); }
}
// ------------------------------------------------------------------ wall clock jumps
struct Jumper {
    std::vector<std::pair<uint64_t, int64_t>> plan; bool done = false; std::thread t;
    void start(unsigned max, uint64_t span) {
        { Quiet z;
          static const int64_t amt[10] = {1000000, -1000000, 1000000000, -1000000000, 3600000000000ll, -3600000000000ll, 50000000, -50000000, 200000000, -200000000};
          unsigned k = sim::cfg(max + 1); for (unsigned i = 0; i < k; i++) plan.push_back({sim::work((uint32_t)span), amt[sim::work(10)]}); }
        if (!plan.empty()) t = std::thread([this] { for (auto& p : plan) { sim::sleep_ns(p.first); sim::jump_wall(p.second); } });
    }
    void join() { if (t.joinable()) t.join(); }
};
// ------------------------------------------------------------------ C11
static void s_runfor() {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(4)]); }
    random_config(w); make_graph(w); random_profile(w);
    uint64_t d, tick; bool ov;
    { Quiet z; for (auto& n : w.n) n->dwell_ns = 0;
      static const uint64_t ms[12] = {0, 1, 3, 10, 49, 60, 100, 101, 130, 220, 700, 1500};
      d = ms[sim::cfg(12)] * 1000000ull + sim::cfg(3) * 137000ull;
      static const uint64_t late[6] = {0, 0, 0, 200000, 2000000, 7000000};
      tick = late[sim::cfg(6)]; sim::set_timer_slack(tick);
      ov = sim::cfg(3) == 0; sim::set_rate(sim::F_OVERSLEEP, ov ? 4 : 0); sim::set_step_limit(4000000, "run_for-hangs"); }
    struct SleepyNode { static void prep(Node& n) { n.dwell_ns = 4000000; } };
    for (auto& n : w.n) { SleepyNode::prep(*n); n->wt[0] = 1; for (int k = 1; k < 7; k++) n->wt[k] = 0; }
    // sometimes a block fails for good during the run: run_for() still has to end it completely
    bool fails; { Quiet z; fails = sim::cfg(4) == 3; if (fails) { auto& n = w.n[sim::cfg((uint32_t)w.n.size())]; n->fatal_at = 1 + sim::cfg(12); n->fatal_kind = sim::cfg(5); } }
    Jumper j; j.start(3, (uint32_t)(d ? d : 1000000));
    { Quiet z; sim::sample("%s, run_for %.3f ms, %zu wall-clock jumps, every sleep %.1f ms late%s%s", cfg_str(w).c_str(), d / 1e6, j.plan.size(), tick / 1e6, ov ? ", oversleeping" : "", fails ? ", a block fails" : ""); }
    begin_run(w);
    uint64_t t0 = sim::now_ns();
    w.fg->run_for(std::chrono::nanoseconds(d), w.cfg);
    uint64_t t1 = sim::now_ns();
    { Quiet z;
      uint64_t el = t1 - t0;
      bool failed = false; for (auto& n : w.n) if (n->fatal_at && n->run_begun >= n->fatal_at) failed = true;
      if (failed) sim::probe("failure-in-timed-run");
      if (el < d && !failed) sim::fail("short-run", "run_for(%.6f ms) returned after %.6f ms", d / 1e6, el / 1e6);
      uint64_t slack = 25000000 + 2 * 4000000 + 3 * tick + sim::fault_count(sim::F_OVERSLEEP) * 470000000ull;
      if (el > d + slack) sim::fail("long-run", "run_for(%.3f ms) took %.3f ms (allowed overshoot %.3f ms)", d / 1e6, el / 1e6, slack / 1e6);
      if (!j.plan.empty()) sim::nontrivial(); if (d > 100000000) sim::nontrivial(); }
    if (!w.fg->is_stopped()) sim::fail("not-stopped", "the graph does not report itself stopped after run_for");
    j.join();
    check_silent(w, "after run_for()");
}
// ------------------------------------------------------------------ C12
static void sleep_cb(int tid, uint64_t ns) {
    World& w = *W;
    if (tid == 0 || tid >= 64 || w.last_node_of_tid[tid] < 0) return;
    Node& n = *w.n[w.last_node_of_tid[tid]];
    if (n.in_call && n.in_tid == tid) return;          // the block's own sleep
    if (sim::verbose()) sim::note("sleep of %llu ns after block %d returned %d", (unsigned long long)ns, n.id, n.last_out);
    if (ns <= 1000) {                                  // the scheduler's relax, or a back-off shorter than 2 us (whole microseconds are slept)
        if (w.cfg.adaptive_sleep && n.consec > w.cfg.adaptive_sleep_fail_threshold) n.prev_backoff = std::max(n.prev_backoff, ns / 1e3);
        return;
    }
    sim::probe("back-off-sleep");
    if (!w.cfg.adaptive_sleep) sim::fail("sleep-while-off", "adaptive sleeping is off, and a sleep of %.1f us is requested after block %d returned %d", ns / 1e3, n.id, n.last_out);
    if (ns > w.cfg.adaptive_sleep_max_us * 1000.0 + 0.5) sim::fail("sleep-limit", "a sleep of %.1f us is requested for block %d, the maximum is %.1f us", ns / 1e3, n.id, w.cfg.adaptive_sleep_max_us);
    if (!starved(n.last_out)) sim::fail("sleep-without-starving", "a sleep of %.1f us is requested after block %d returned %d", ns / 1e3, n.id, n.last_out);
    if (n.consec <= w.cfg.adaptive_sleep_fail_threshold) sim::fail("early-backoff", "a sleep of %.1f us is requested after %llu starved calls in a row of block %d, the threshold is %zu", ns / 1e3, (unsigned long long)n.consec, n.id, w.cfg.adaptive_sleep_fail_threshold);
    double us = ns / 1e3, m = w.cfg.adaptive_sleep_multiplier;
    if (us > (n.prev_backoff + 1) * m * 1.1 + 1.0) sim::fail("sleep-growth", "block %d sleeps %.1f us after sleeping %.1f us, more than the multiplier %.2f allows", n.id, us, n.prev_backoff, m);
    if (n.had_success && n.n_backoff && w.cfg.adaptive_sleep_fail_threshold >= 1 && m * 1.05 * 0.5 < 0.95 && us > n.prev_backoff && n.prev_backoff > 20)
        sim::fail("no-recovery", "block %d succeeded and then sleeps %.1f us, longer than the %.1f us before the success", n.id, us, n.prev_backoff);
    if (!n.had_success && n.n_backoff && m * 0.94 > 1.0 && us + 1 < n.prev_backoff)
        sim::fail("sleep-shrinks", "block %d, still starved, sleeps %.1f us after %.1f us", n.id, us, n.prev_backoff);
    n.prev_backoff = us; n.n_backoff++; n.had_success = false;
}
static void s_sleep() {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(2) ? 5 + sim::cfg(4) : sim::cfg(9)]); }
    random_config(w); random_profile(w);
    { Quiet z; w.cfg.adaptive_sleep = sim::cfg(5) != 0; w.check_sleep = true; if (sim::cfg(3) == 0) w.cfg.adaptive_sleep_max_us = 5000;
      if (sim::cfg(8) == 0) { static const double mx[4] = {0.0, 0.5, 1.0, 2.5}; w.cfg.adaptive_sleep_max_us = mx[sim::cfg(4)]; }
      bool all = sim::cfg(3) == 0;
      for (auto& n : w.n) if (all || sim::cfg(3) == 0) { uint32_t x[7] = {!all && sim::cfg(3) == 0, 15, 5, 5, 0, 0, 0}; memcpy(n->wt, x, sizeof x); } }
    make_graph(w);
    { Quiet z; sim::on_sleep(sleep_cb); sim::set_step_limit(2500000, "starvation"); sim::sample("%s, multiplier %.1f max %.1f us threshold %zu", cfg_str(w).c_str(), w.cfg.adaptive_sleep_multiplier, w.cfg.adaptive_sleep_max_us, w.cfg.adaptive_sleep_fail_threshold); }
    unsigned rounds = 1 + (C(3) == 0);
    for (unsigned r = 0; r < rounds; r++) {
        if (r) { Quiet z; static const double mx[4] = {500, 5000, 40, 2.5}; static const size_t th[4] = {10, 20, 3, 1}; w.cfg.adaptive_sleep = sim::cfg(5) != 0; w.cfg.adaptive_sleep_max_us = mx[sim::cfg(4)]; w.cfg.adaptive_sleep_fail_threshold = th[sim::cfg(4)]; sim::probe("sleep-rerun"); }
        begin_run(w);
        w.fg->run(w.cfg);
        wait_total(w, w.n.size() * (20 + Wk(60)));
        w.fg->stop();
        Quiet z; for (auto& n : w.n) if (n->n_backoff > 1) sim::nontrivial();
    }
}
// a starved block reacts to input within the maximum sleep
static void s_wake() {
    World w; { Quiet z; world_nodes(w, 3); pipeline(w); sim::set_weak(false); }
    random_config(w);
    { Quiet z; w.cfg.adaptive_sleep = true; w.cfg.scheduler = cler::SchedulerType::ThreadPerBlock; w.check_sleep = true; sim::on_sleep(sleep_cb); if (sim::cfg(3) == 0) w.cfg.adaptive_sleep_max_us = 5000; }
    // the source is fed by the harness: it has something to send only now and then
    w.n[0]->kind = SCRIPT; { Quiet z; uint32_t x[7] = {0, 1, 0, 0, 0, 0, 0}; memcpy(w.n[0]->wt, x, sizeof x); }
    make_graph(w);
    begin_run(w);
    w.fg->run(w.cfg);
    uint32_t v = 0; unsigned rounds = 2 + C(3);
    for (unsigned r = 0; r < rounds; r++) {
        sim::sleep_ns(1000 + Wk(60000000));
        uint64_t t0 = sim::now_ns();
        if (!w.ch[0]->try_push(v)) sim::fail("no-progress", "input offered before was not taken");
        v++;
        struct A { Node* n; uint64_t t; } a{w.n[2].get(), v};
        uint64_t lim = (uint64_t)(2 * w.cfg.adaptive_sleep_max_us * 1000) + 20000000;
        while (w.n[2]->moved < v) { if (sim::now_ns() - t0 > lim) sim::fail("late-wake", "input offered to a starved chain of two blocks was not processed within twice the maximum sleep of %.0f us (+20 ms)", w.cfg.adaptive_sleep_max_us); sim::sleep_ns(20000); }
        (void)a;
    }
    w.fg->stop();
    Quiet z; sim::nontrivial(); sim::sample("3-block chain fed every now and then, max sleep %.0f us", w.cfg.adaptive_sleep_max_us);
}
// ------------------------------------------------------------------ C13
// the printed report: a line per block, whose figures are those of the calls that were made
static void check_report(World& w, unsigned r) {
    size_t before; { Quiet z; before = sim::fs_get("<stdout>").size(); }
    w.fg->report(); fflush(stdout);
    Quiet z; std::string t = sim::fs_get("<stdout>").substr(before);
    for (size_t i = 0; i < w.n.size(); i++) {
        Node& n = *w.n[i]; auto& s = w.fg->stats(i); std::string key = n.name(); const char* line = nullptr; unsigned seen = 0;
        for (size_t at = 0; at < t.size();) { size_t e = t.find('\n', at); if (e == std::string::npos) e = t.size(); if (!t.compare(at, key.size(), key) && at + key.size() < e && !isalnum((unsigned char)t[at + key.size()])) { line = t.c_str() + at + key.size(); seen++; } at = e + 1; }
        if (seen != 1) sim::fail("report", "run %u: the report has %u lines for block %zu", r, seen, i);
        double v[3]; unsigned k = 0; for (const char* p = line; *p && *p != '\n' && k < 3;) { char* e; double x = strtod(p, &e); if (e != p) { v[k++] = x; p = e; } else p++; }
        if (k < 3) sim::fail("report", "run %u: the report's line of block %zu has %u figures", r, i, k);
        uint64_t total = n.run_ok + n.run_bad; double succ = total ? 100.0 * n.run_ok / total : 0, cpu = s.total_runtime_s > 0 ? 100.0 * (s.total_runtime_s - s.total_dead_time_s) / s.total_runtime_s : 0, avg = n.run_ok ? s.total_runtime_s * 1e6 / n.run_ok : 0;
        auto off = [](double a, double b) { return !(std::abs(a - b) <= 0.06 + 1e-5 * std::abs(b)); };
        if (off(v[0], succ)) sim::fail("report", "run %u: block %zu had %llu of %llu calls succeed, the report says %.1f%%", r, i, (unsigned long long)n.run_ok, (unsigned long long)total, v[0]);
        if (off(v[1], cpu) || v[1] < -0.05 || v[1] > 100.05) sim::fail("report", "run %u: block %zu was busy %.1f%% of its run time, the report says %.1f%%", r, i, cpu, v[1]);
        if (off(v[2], avg)) sim::fail("report", "run %u: block %zu took %.1f us per successful call, the report says %.1f us", r, i, avg, v[2]);
    }
}
static void s_stats() {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(9)]); if (w.n.size() > 1 && sim::cfg(3) == 0) pipeline(w); }
    random_config(w); if (w.n[0]->kind == SCRIPT) random_profile(w);
    make_graph(w);
    unsigned runs = 1 + C(3); std::string d; bool report = C(3) == 0; if (report) { Quiet z; sim::fs_capture_stdout(true); }
    for (unsigned r = 0; r < runs; r++) {
        bool fatal;
        { Quiet z; w.cfg.collect_detailed_stats = true; fatal = sim::work(3) == 0; for (auto& n : w.n) n->fatal_at = 0;
          if (fatal) { auto& n = w.n[sim::work((uint32_t)w.n.size())]; n->fatal_at = 1 + sim::work(15); }
          sim::set_step_limit(2500000, "starvation"); d += fatal ? " fatal" : " stop";
          sim::sample("%s, runs:%s", cfg_str(w).c_str(), d.c_str()); }
        Jumper j; j.start(2, 300000);
        begin_run(w);
        uint64_t t0 = sim::now_ns();
        w.fg->run(w.cfg);
        if (fatal) { while (!w.fg->is_stopped()) sim::sleep_ns(1000); }
        else if (Wk(5) == 0) sim::sleep_ns(Wk(30000));
        else wait_total(w, w.n.size() * (1 + Wk(30)));
        w.fg->stop();
        uint64_t t1 = sim::now_ns();
        j.join();
        for (size_t i = 0; i < w.n.size(); i++) {
            auto& s = w.fg->stats(i);
            size_t ok = s.successful_procedures, bad = s.failed_procedures; double rt = s.total_runtime_s, dead = s.total_dead_time_s; std::string nm = s.name.c_str();
            double fin = s.final_adaptive_sleep_us;
            Quiet z; Node& n = *w.n[i];
            const char* how = n.fatal_at && n.run_begun >= n.fatal_at ? " (it ended the run with a fatal error)" : "";
            if (ok != n.run_ok) sim::fail("stats", "run %u: block %zu%s had %llu successful calls, the statistics say %zu", r, i, how, (unsigned long long)n.run_ok, ok);
            if (bad != n.run_bad) sim::fail("stats", "run %u: block %zu%s had %llu failed calls, the statistics say %zu", r, i, how, (unsigned long long)n.run_bad, bad);
            if (nm != n.name()) sim::fail("stats", "the statistics of block %zu carry the name '%s'", i, nm.c_str());
            if (!(rt >= 0)) sim::fail("stats-time", "run %u: block %zu: run time %g s", r, i, rt);
            if (n.run_begun && rt * 1e9 + 1000 < (double)(n.last_ns - n.first_ns)) sim::fail("stats-time", "run %u: block %zu%s ran for %.3f us, the statistics say %.3f us", r, i, how, (n.last_ns - n.first_ns) / 1e3, rt * 1e6);
            if (rt * 1e9 > (double)(t1 - t0) + 1000) sim::fail("stats-time", "run %u: block %zu: run time %.3f us in a run of %.3f us", r, i, rt * 1e6, (t1 - t0) / 1e3);
            if (!(dead >= 0) || dead > rt + 1e-6) sim::fail("stats-time", "run %u: block %zu: dead time %.3f us, run time %.3f us", r, i, dead * 1e6, rt * 1e6);
            if (!(fin >= 0) || (!w.cfg.adaptive_sleep && fin != 0)) sim::fail("stats", "block %zu: final adaptive sleep %g", i, fin);
            if (n.run_begun) sim::nontrivial();
        }
        if (report) check_report(w, r);
        if (C(3) == 0) { random_config(w); }
    }
}
// the report of a graph without detailed statistics, and of one that still runs
static bool has(const std::string& t, const char* f, ...) {
    char b[128]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return t.find(b) != std::string::npos;
}
static void s_report() {
    World w; { Quiet z; world_nodes(w, sizes[sim::cfg(9)]); }
    random_config(w); random_profile(w);
    make_graph(w);
    { Quiet z; sim::fs_capture_stdout(true); sim::set_step_limit(4000000, "starvation"); sim::sample("%s", cfg_str(w).c_str()); }
    bool named = false;
    unsigned runs = 1 + C(3);
    for (unsigned r = 0; r < runs; r++) {
        if (r && C(3) == 0) random_config(w);
        bool running; { Quiet z; w.cfg.collect_detailed_stats = sim::cfg(4) == 0; running = sim::cfg(4) == 0; if (w.cfg.collect_detailed_stats) named = true; }
        begin_run(w);
        w.fg->run(w.cfg);
        wait_total(w, w.n.size() * (1 + Wk(30)));
        size_t before; { Quiet z; before = sim::fs_get("<stdout>").size(); }
        if (running) {
            { Quiet z; sim::set_tick(20000); }
            w.fg->report(); fflush(stdout);
            Quiet z; sim::set_tick(10); std::string t = sim::fs_get("<stdout>").substr(before); before += t.size();
            if (!has(t, "still running") || t.find('=') != std::string::npos) sim::fail("report", "run %u: the graph runs on, and the report is: %s", r, t.c_str());
            sim::probe("report-while-running");
        }
        w.fg->stop();
        w.fg->report(); fflush(stdout);
        Quiet z; std::string t = sim::fs_get("<stdout>").substr(before); const auto& c = w.cfg; bool pool = c.scheduler == cler::SchedulerType::FixedThreadPool;
        if (!has(t, "Scheduler: %s\n", pool ? "FixedThreadPool" : "ThreadPerBlock")) sim::fail("report", "run %u: the report does not name the scheduler %s", r, pool ? "FixedThreadPool" : "ThreadPerBlock");
        if (has(t, "Workers:") != pool || (pool && !has(t, "Workers: %zu\n", c.num_workers))) sim::fail("report", "run %u: the report does not give the %zu workers", r, c.num_workers);
        if (!has(t, "Adaptive Sleep: %s\n", c.adaptive_sleep ? "ENABLED" : "DISABLED")) sim::fail("report", "run %u: adaptive sleeping is %s, the report does not say so", r, c.adaptive_sleep ? "on" : "off");
        if (c.adaptive_sleep && (!has(t, "Multiplier: %.2f\n", c.adaptive_sleep_multiplier) || !has(t, "(us): %.1f\n", c.adaptive_sleep_max_us) || !has(t, "Threshold: %zu\n", c.adaptive_sleep_fail_threshold))) sim::fail("report", "run %u: the report does not give the adaptive sleep settings", r);
        if (!has(t, "Detailed Stats: %s\n", c.collect_detailed_stats ? "ENABLED" : "DISABLED")) sim::fail("report", "run %u: detailed statistics are %s, the report does not say so", r, c.collect_detailed_stats ? "on" : "off");
        if (c.collect_detailed_stats) continue;
        if (!c.adaptive_sleep) { if (!has(t, "Block count: %zu\n", w.n.size())) sim::fail("report", "run %u: the report does not give the number of blocks, %zu", r, w.n.size()); }
        else for (size_t i = 0; i < w.n.size(); i++) {
            char line[128]; snprintf(line, sizeof line, "\n%-30s | %12.1f\n", named ? w.n[i]->name() : "Block", w.fg->stats(i).current_adaptive_sleep_us.load());
            if (t.find(line) == std::string::npos) sim::fail("report", "run %u: the report has no line for block %zu, that sleeps %.1f us", r, i, w.fg->stats(i).current_adaptive_sleep_us.load());
        }
        sim::nontrivial();
    }
}
// the throughput meter of a running graph: what it reports is what passed in the time that passed
static void s_meter() {
    struct In : cler::BlockBase { ThroughputBlock<uint32_t>& m; uint64_t n = 0, stall; unsigned gap; In(ThroughputBlock<uint32_t>& b, unsigned g) : BlockBase("in"), m(b), stall(0), gap(g) {}
        Result<Empty, Error> procedure(cler::ChannelBase<uint32_t>* o) { size_t k; bool nap; { Quiet z; k = sim::work(900); nap = gap && sim::work(gap) == 1; } if (nap) std::this_thread::sleep_for(std::chrono::microseconds(1 + Wk(200))); size_t f = 0; uint32_t v; while (f < k && o->space()) { v = (uint32_t)n; if (!o->try_push(v)) break; n++; f++; } return f ? Result<Empty, Error>(Empty{}) : Error::NotEnoughSpace; } };
    struct Out : cler::BlockBase { cler::Channel<uint32_t> in; uint64_t n = 0; bool bad = false; Out() : BlockBase("out"), in(1024) {}
        Result<Empty, Error> procedure() { uint32_t b[256]; size_t k = in.readN(b, 1 + Wk(256)); for (size_t i = 0; i < k; i++) if (b[i] != (uint32_t)n++) bad = true; return k ? Result<Empty, Error>(Empty{}) : Error::NotEnoughSamples; } };
    uint64_t lead, len; unsigned gap; cler::FlowGraphConfig cfg;
    { Quiet z; lead = sim::work(400000); len = 20000 + sim::work(400000); gap = sim::cfg(3) ? 2 + sim::work(6) : 0; if (sim::cfg(2)) { cfg.scheduler = cler::SchedulerType::FixedThreadPool; cfg.num_workers = 2 + sim::cfg(2); } cfg.adaptive_sleep = sim::cfg(2); sim::set_step_limit(6000000, "starvation"); }
    Jumper j; j.start(3, 200000);
    sim::sleep_ns(Wk(100000));
    uint64_t b0 = sim::now_ns(); ThroughputBlock<uint32_t> m("meter", 1024); uint64_t b1 = sim::now_ns();
    In src(m, gap); Out dst; sim::sleep_ns(lead);
    { auto fg = cler::make_desktop_flowgraph(cler::BlockRunner(&src, &m.in), cler::BlockRunner(&m, &dst.in), cler::BlockRunner(&dst)); fg.run(cfg); sim::sleep_ns(len); fg.stop(); }
    j.join();
    std::ostringstream os; std::string t; double v[3] = {-1, -1, -1}; uint64_t e0, e1;
    { Quiet z; auto* old = std::cout.rdbuf(os.rdbuf()); (void)old; }
    e0 = sim::now_ns(); m.report(); e1 = sim::now_ns();
    Quiet z; t = os.str(); size_t at = t.find('\n'); unsigned k = 0;
    for (const char* p = t.c_str() + (at == std::string::npos ? 0 : at); (p = strchr(p, ':')) && k < 3;) v[k++] = strtod(++p, nullptr);
    uint64_t rest = dst.in.size(), passed = dst.n + rest;
    if (dst.bad) sim::fail("stream", "the meter changes the stream");
    if (m.samples_passed() != passed || v[0] != (double)passed) sim::fail("miscount", "%llu samples passed, the meter counts %zu and reports %.0f", (unsigned long long)passed, m.samples_passed(), v[0]);
    double lo = (e0 - b1) / 1e9, hi = (e1 - b0) / 1e9;
    if (!(v[1] >= lo * 0.9999 - 1e-9 && v[1] <= hi * 1.0001 + 1e-9)) sim::fail("meter-time", "%.6f s have passed, the meter reports %.6f s", hi, v[1]);
    if (!(v[2] >= passed / hi * 0.9999 && v[2] <= passed / lo * 1.0001)) sim::fail("meter-rate", "%llu samples in %.6f s, the meter reports %.1f a second", (unsigned long long)passed, hi, v[2]);
    if (passed > 1024 || !j.plan.empty()) sim::nontrivial();
    sim::sample("%llu samples, %.3f ms%s", (unsigned long long)passed, hi * 1e3, j.plan.empty() ? "" : ", wall clock jumps");
}

static const sim::Scenario S[] = {
    {"excl", 1, s_excl}, {"starve", 1, s_starve}, {"flow", 1, s_flow}, {"life", 1, s_life}, {"life_fault", 1, s_life_fault},
    {"fatal", 2, s_fatal}, {"soft", 1, s_soft}, {"runfor", 1, s_runfor}, {"sleep", 3, s_sleep}, {"wake", 1, s_wake}, {"stats", 3, s_stats}, {"meter", 1, s_meter}, {"report", 1, s_report},
};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
