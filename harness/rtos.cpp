// C14: the three embedded task policies on simulated kernels, alone and under the real FlowGraph.
#include "sim.hpp"
#include "cler.hpp"
#include "task_policies/cler_freertos_tpolicy.hpp"
#include "task_policies/cler_threadx_tpolicy.hpp"
#include "task_policies/cler_zephyr_tpolicy.hpp"
#include <zephyr/sys/printk.h>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace ex_frt {
#include "embedded_examples/freertos_examples/frts_hello_world.cpp"
}
namespace ex_thx {
#include "embedded_examples/threadx_examples/thx_hello_world.cpp"
}
namespace ex_zph {
#include "embedded_examples/zephyr_examples/zph_hello_world.cpp"
}

using sim::Quiet;
using cler::Error; using cler::Empty; using cler::Result;
static unsigned C(unsigned n) { Quiet z; return sim::cfg(n); }
static unsigned Wk(unsigned n) { Quiet z; return sim::work(n); }

struct Probe { int started = 0, finished = 0, destroyed = 0, live_copies = 0; uint64_t data = 0; };
static const int NT = 6;
static Probe P[NT];

struct Fn {      // a task function with observable life time
    int i; unsigned loops; unsigned sleepy; uint64_t* payload;
    Fn(int i_, unsigned l, unsigned s) : i(i_), loops(l), sleepy(s), payload(new uint64_t(i_ * 7 + 1)) { Quiet z; P[i].live_copies++; }
    Fn(const Fn& o) : i(o.i), loops(o.loops), sleepy(o.sleepy), payload(new uint64_t(*o.payload)) { Quiet z; P[i].live_copies++; }
    Fn(Fn&& o) noexcept : i(o.i), loops(o.loops), sleepy(o.sleepy), payload(o.payload) { o.payload = nullptr; Quiet z; P[i].live_copies++; }
    ~Fn() { delete payload; payload = nullptr; Quiet z; P[i].live_copies--; }
    void operator()() const;
};
static void (*g_yield)();
static void (*g_sleep)(size_t);
void Fn::operator()() const {
    { Quiet z; if (P[i].started++) sim::fail("run-twice", "task function %d is started twice", i); }
    for (unsigned k = 0; k < loops; k++) {
        P[i].data += *payload;
        if (!sleepy) { g_yield(); continue; }
        size_t us = sleepy == 1 ? 1 + 7000 * k : 40000000;
        uint64_t t0 = sim::now_ns();
        g_sleep(us);
        Quiet z; uint64_t dt = sim::now_ns() - t0, want = us * 1000ull;
        if (dt + 2 * simk::tick_ns < want || dt > want + 2 * simk::tick_ns + 300000) sim::fail("sleep-length", "a task that asks to sleep for %zu us sleeps for %llu us, with %llu kernel ticks in a second", us, (unsigned long long)dt / 1000, 1000000000ull / (unsigned long long)simk::tick_ns);
    }
    Quiet z; P[i].finished++;
}
static void check_clean(const char* kernel) {
    // kernels free exiting threads on their own time
    sim::sleep_ns(5000000);
    Quiet z;
    auto* k = simk::K();
    if (k->threads_live) sim::fail("kernel-leak", "%s: %d thread(s) still exist after all tasks were joined", kernel, k->threads_live);
    if (k->sems_live) sim::fail("kernel-leak", "%s: %d semaphore(s) still exist after all tasks were joined", kernel, k->sems_live);
    for (int i = 0; i < NT; i++) if (P[i].live_copies) sim::fail("leak", "%s: %d copies of task function %d are never destroyed", kernel, P[i].live_copies, i);
}
template <class Pol> static void tasks(const char* kernel, bool refusals, bool atomic_exit) {
    bool coop = C(3) == 0;
    simk::boot(coop);
    { Quiet z; static const uint64_t tick[] = {1000000, 10000000, 100000, 4000000}; simk::tick_ns = tick[sim::cfg(4)]; simk::K()->atomic_exit = atomic_exit; g_yield = &Pol::yield; g_sleep = &Pol::sleep_us;
      for (auto& p : P) p = Probe();
      if (refusals && sim::cfg(2)) { sim::set_rate(sim::F_KERNEL_CREATE, 250); sim::set_rate(sim::F_KERNEL_SEM, 250); }
      sim::set_step_limit(300000, "join-hangs"); }
    int64_t heap0 = 0; { Quiet z; heap0 = sim::live_heap_blocks(); }
    unsigned rounds = 1 + C(2);
    for (unsigned r = 0; r < rounds; r++) {
        { Quiet z; for (auto& p : P) { p.started = p.finished = 0; p.data = 0; } }
        unsigned n = 1 + C(NT);
        {
            std::array<typename Pol::task_type, NT> tasks{};
            std::array<unsigned, NT> loops{};
            std::array<bool, NT> made{};
            for (unsigned i = 0; i < n; i++) {
                loops[i] = Wk(5); unsigned sl = Wk(6) % 4; if (sl == 3) sl = 0;
                uint64_t ref; { Quiet z; ref = simk::K()->refused; }
                tasks[i] = Pol::create_task(Fn((int)i, loops[i], sl));
                { Quiet z; made[i] = simk::K()->refused == ref; if (!made[i]) sim::probe("refused"); }
                if (Wk(3) == 0) sim::sleep_ns(Wk(3000000));
            }
            for (unsigned k = 0; k < n; k++) {
                unsigned i = (k + (coop ? 0 : 1)) % n;
                Pol::join_task(tasks[i]);
                uint64_t seen = P[i].data;         // visible without further synchronisation
                { Quiet z;
                  if (made[i] && !P[i].finished) sim::fail("joined-early", "%s: join_task returned before the function of task %u had finished", kernel, i);
                  if (made[i] && P[i].finished != 1) sim::fail("run-twice", "%s: task %u ran %d times", kernel, i, P[i].finished);
                  if (!made[i] && P[i].started) sim::fail("kernel-object", "%s: task %u was refused and runs", kernel, i);
                  if (made[i] && seen != loops[i] * (i * 7ull + 1)) sim::fail("stale-state", "%s: what task %u wrote is not visible after the join", kernel, i); }
                if (Wk(3) == 0) Pol::join_task(tasks[i]);
            }
        }
        check_clean(kernel);
        { Quiet z; int64_t h = sim::live_heap_blocks(); if (h != heap0) sim::fail("leak", "%s: %lld heap blocks more than before: %s", kernel, (long long)(h - heap0), sim::live_heap_report().c_str());
          sim::sample("%s, %u tasks, %s kernel%s", kernel, n, coop ? "cooperative" : "preemptive", simk::K()->refused ? ", refusals" : ""); if (n > 1 || simk::K()->refused) sim::nontrivial(); }
    }
}
static void s_frt() { tasks<cler::FreeRTOSTaskPolicy>("FreeRTOS", true, true); }
static void s_thx() { tasks<cler::ThreadXTaskPolicy>("ThreadX", true, true); }
static void s_zph() { tasks<cler::ZephyrTaskPolicy>("Zephyr", false, true); }
static void s_zph_exit() { tasks<cler::ZephyrTaskPolicy>("Zephyr", false, false); }

// ------------------------------------------------------------------ flowgraphs
using Ch = cler::Channel<uint32_t, 4>;
struct Node : cler::BlockBase {
    Ch* in = nullptr; Ch* out = nullptr; uint32_t next = 0; uint64_t moved = 0; uint64_t calls = 0; bool in_call = false;
    Node(const char* n) : BlockBase(n) {}
    Result<Empty, Error> procedure() {
        { Quiet z; if (in_call) sim::fail("overlap", "a block is entered twice at once"); in_call = true; calls++; }
        size_t did = 0;
        if (!in) { while (did < 2 && out->try_push(next)) { next++; did++; } }
        else if (out) { uint32_t b[4]; size_t m = std::min(in->size(), out->space()); did = in->readN(b, m); out->writeN(b, did); }
        else { uint32_t v; while (in->try_pop(v)) { if (v != next) sim::fail("stream", "the sink expects %u and gets %u", next, v); next++; did++; } }
        Quiet z; in_call = false; moved += did;
        if (did) return Empty{};
        return !in ? Error::NotEnoughSpace : out ? Error::NotEnoughSpaceOrSamples : Error::NotEnoughSamples;
    }
};
template <class Pol, size_t... I> static void graph_n(const char* kernel, bool refusals, std::index_sequence<I...>) {
    constexpr size_t N = sizeof...(I);
    bool coop = C(2) == 0;
    simk::boot(coop);
    { Quiet z; static const uint64_t tick[] = {1000000, 1000000, 10000000, 250000}; simk::tick_ns = tick[sim::cfg(4)]; sim::set_step_limit(1500000, "no-progress"); }
    { Quiet z; for (auto& p : P) p = Probe(); }
    int64_t heap0; { Quiet z; heap0 = sim::live_heap_blocks(); }
    {
        std::unique_ptr<Node> nd[N]; std::unique_ptr<Ch> ch[N];
        for (size_t i = 0; i < N; i++) { char b[16]; snprintf(b, sizeof b, "n%zu", i); nd[i] = std::make_unique<Node>(b); ch[i] = std::make_unique<Ch>(); }
        for (size_t i = 0; i + 1 < N; i++) { nd[i]->out = ch[i].get(); nd[i + 1]->in = ch[i].get(); }
        cler::FlowGraph<Pol, typename std::enable_if<(I + 1 > 0), cler::BlockRunner<Node>>::type...> fg(cler::BlockRunner<Node>(nd[I].get())...);
        cler::FlowGraphConfig c;
        { Quiet z; c.scheduler = sim::cfg(2) ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock; c.num_workers = 2; c.adaptive_sleep = sim::cfg(3) == 0;
          c.adaptive_sleep_max_us = 3000; c.max_calls_per_tick = 1 + sim::cfg(4); c.collect_detailed_stats = sim::cfg(2); }
        unsigned rounds = 1 + C(2);
        for (unsigned r = 0; r < rounds; r++) {
            bool timed = false;
            if (C(4) == 0) {   // a timed run
                unsigned us; uint64_t t0 = sim::now_ns(), dt;
                { Quiet z; us = 500 + sim::cfg(400) * 1000; sim::set_tick(us > 20000 ? 20000 : 2000); }
                fg.run_for(std::chrono::microseconds(us), c);
                dt = sim::now_ns() - t0;
                { Quiet z; sim::set_tick(10); sim::probe("timed runs");
                if (dt < us * 1000ull || dt > us * 1000ull + 400000000) sim::fail("run-length", "%s: a run for %u us takes %llu us, with %llu kernel ticks in a second", kernel, us, (unsigned long long)dt / 1000, 1000000000ull / (unsigned long long)simk::tick_ns);
                if (!fg.is_stopped()) sim::fail("running-after-stop", "%s: the graph is not stopped after a timed run", kernel);
                for (auto& x : nd) if (x->in_call) sim::fail("running-after-stop", "%s: a block is still inside its call after a timed run", kernel);
                sim::nontrivial(); timed = true; }
                check_clean(kernel);
            }
            if (timed) continue;
            bool ref = false; uint64_t r0;
            { Quiet z; ref = refusals && sim::cfg(2); if (ref) { sim::set_rate(sim::F_KERNEL_CREATE, 150); sim::set_rate(sim::F_KERNEL_SEM, 150); } r0 = simk::K()->refused; }
            fg.run(c);
            { Quiet z; sim::set_rate(sim::F_KERNEL_CREATE, 0); sim::set_rate(sim::F_KERNEL_SEM, 0); ref = simk::K()->refused != r0; }
            if (!ref) {
                struct A { Node* n; uint64_t t; } a{nd[N - 1].get(), nd[N - 1]->moved + 5 + Wk(30)};
                sim::block_until([](void* p) { return ((A*)p)->n->moved >= ((A*)p)->t; }, &a, 0);
                Quiet z; sim::nontrivial();
            } else sim::sleep_ns(Wk(2000000));
            fg.stop();
            uint64_t c0 = 0, c1 = 0;
            { Quiet z; for (auto& x : nd) { c0 += x->calls; if (x->in_call) sim::fail("running-after-stop", "%s: a block is still inside its call after stop()", kernel); } }
            sim::sleep_ns(4000000);
            { Quiet z; for (auto& x : nd) c1 += x->calls; if (c0 != c1) sim::fail("running-after-stop", "%s: blocks run after stop()", kernel); }
            if (Wk(3) == 0) fg.stop();
            check_clean(kernel);
        }
        Quiet z; sim::sample("%s, %zu-block pipeline, %s kernel, %s%s", kernel, N, coop ? "cooperative" : "preemptive", c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "thread per block", c.adaptive_sleep ? ", adaptive sleep" : "");
    }
    Quiet z; int64_t h = sim::live_heap_blocks(); if (h != heap0) sim::fail("leak", "%s: %lld heap blocks more than before: %s", kernel, (long long)(h - heap0), sim::live_heap_report().c_str());
}
template <class Pol> static void graph(const char* kernel, bool refusals) {
    if (C(2)) graph_n<Pol>(kernel, refusals, std::make_index_sequence<2>{}); else graph_n<Pol>(kernel, refusals, std::make_index_sequence<4>{});
}
static void s_frt_graph() { graph<cler::FreeRTOSTaskPolicy>("FreeRTOS", true); }
static void s_thx_graph() { graph<cler::ThreadXTaskPolicy>("ThreadX", true); }
static void s_zph_graph() { graph<cler::ZephyrTaskPolicy>("Zephyr", false); }

// ------------------------------------------------------------------ the shipped examples (C29)
// The kernel is booted by the example's main(); the sum of its two tones must go on being printed.
static size_t printed(const char* kernel, size_t seen) {
    std::string o = sim::fs_get("<stdout>"); size_t n = 0;
    size_t end = o.rfind('\n'); o.resize(end == std::string::npos ? 0 : end + 1);
    std::istringstream in(o); std::string l;
    while (std::getline(in, l)) {
        if (l.compare(0, 7, "Sample ")) { if (l.compare(0, 5, "CLER ") && l != "Starting DSP flowgraph...") sim::fail("output", "%s: '%s' is printed", kernel, l.c_str()); continue; }
        if (++n <= seen) continue;
        unsigned long k; float v; int used = 0;
        if (sscanf(l.c_str(), "Sample %lu: %f%n", &k, &v, &used) != 2 || used != (int)l.size()) sim::fail("output", "%s: '%s' is printed", kernel, l.c_str());
        double t = (double)(k - 1) / 1000, e = cos(2 * M_PI * t) + 0.5 * cos(20 * M_PI * t);
        if (k != n * 100) sim::fail("output", "%s: sample %lu is printed after sample %zu", kernel, k, (n - 1) * 100);
        if (fabs(v - e) > 0.01) sim::fail("output", "%s: sample %lu is printed as %s, the sum of the two tones is %.3f", kernel, k, l.c_str(), e);
    }
    return n;
}
template <int (*MAIN)()> static void example(const char* kernel) {
    static const char* kn; kn = kernel;
    bool coop = C(2) == 0;
    simk::boot(coop);
    { Quiet z; sim::set_step_limit(sim::steps() + 4000000, "no-progress"); sim::fs_capture_stdout(true); }
    sim::k_spawn([](void*) { MAIN(); if (kn[0] != 'Z') sim::fail("early-exit", "%s: main() returned", kn); }, nullptr, "main");
    size_t want = 2 + C(6), seen = 0; uint64_t limit = sim::now_ns() + 2000000000ull;
    while (seen < want) {
        sim::sleep_ns(50000 + C(400000));
        fflush(stdout);
        Quiet z; size_t n = printed(kernel, seen); if (n != seen) { seen = n; sim::set_step_limit(sim::steps() + 4000000, "no-progress"); }
        if (seen < want && sim::now_ns() > limit) sim::fail("no-progress", "%s: two seconds after the start %zu samples are printed", kernel, seen);
    }
    Quiet z; sim::probe("samples printed", seen); sim::sample("%s example, %s kernel", kernel, coop ? "cooperative" : "preemptive"); sim::nontrivial(); sim::finish();
}
static void s_ex_frt() { example<ex_frt::main>("FreeRTOS"); }
static void s_ex_thx() { example<ex_thx::main>("ThreadX"); }
static void s_ex_zph() { example<ex_zph::main>("Zephyr"); }

// no kernel at all: the bare-metal example calls its blocks in turn
namespace ex_bm {
#include "embedded_examples/baremetal_examples/bm_hello_world.cpp"
}
static void s_ex_bm() {
    { Quiet z; sim::fs_capture_stdout(true); sim::set_step_limit(sim::steps() + 60000000, "no-progress"); }
    int r = ex_bm::main(); fflush(stdout);
    Quiet z; if (r) sim::fail("early-exit", "bare metal: main() returns %d", r);
    std::istringstream in(sim::fs_get("<stdout>")); std::string l; size_t n = 0; bool end = false;
    while (std::getline(in, l)) {
        if (l.find(" error: ") != std::string::npos) sim::fail("output", "bare metal: '%s'", l.c_str());
        if (!l.compare(0, 9, "Completed")) end = true;
        unsigned long k; float v; if (sscanf(l.c_str(), "Sample %lu: %f", &k, &v) != 2) continue;
        double t = (double)(k - 1) / 1000, e = cos(2 * M_PI * t) + 0.5 * cos(20 * M_PI * t);
        if (k != ++n * 50 || fabs(v - e) > 0.02) sim::fail("output", "bare metal: '%s' is printed, sample %zu is %.3f", l.c_str(), n * 50, e);
    }
    if (!end || n < 1000 * 32 / 50) sim::fail("output", "bare metal: %zu samples are printed", n);
    sim::probe("samples printed", n); sim::nontrivial();
}

static const sim::Scenario S[] = {
    {"freertos", 40, s_frt}, {"threadx", 40, s_thx}, {"zephyr", 40, s_zph}, {"zephyr_exit", 40, s_zph_exit},
    {"freertos_graph", 40, s_frt_graph}, {"threadx_graph", 40, s_thx_graph}, {"zephyr_graph", 40, s_zph_graph},
    {"ex_freertos", 40, s_ex_frt}, {"ex_threadx", 40, s_ex_thx}, {"ex_zephyr", 40, s_ex_zph}, {"ex_baremetal", 1, s_ex_bm},
};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
