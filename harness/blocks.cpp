// C08: the library's processing blocks in running flowgraphs.
#include "sim.hpp"
#include "cler.hpp"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <stdexcept>
#include "desktop_blocks/math/gain.hpp"
#include "desktop_blocks/math/add.hpp"
#include "desktop_blocks/math/complex_demux.hpp"
#include "desktop_blocks/math/frequency_shift.hpp"
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/utils/throughput.hpp"
#include "desktop_blocks/noise/awgn.hpp"
#include "desktop_blocks/sinks/sink_null.hpp"
#include "desktop_blocks/sources/source_cw.hpp"
#include "desktop_blocks/sources/source_chirp.hpp"
#include "desktop_blocks/filters/kaiser_lpf.hpp"
#include "desktop_blocks/fm/fm_demod.hpp"
#include "desktop_blocks/resamplers/multistage_resampler.hpp"
#include "desktop_blocks/channelizers/polyphase_channelizer.hpp"
#include <memory>
#include <functional>

using sim::Quiet;
using cler::Error; using cler::Empty; using cler::Result; using cler::ChannelBase; using cler::Channel; using cler::BlockRunner;
typedef std::complex<float> cf;
#define NOTSAN __attribute__((no_sanitize("thread")))

// liquid-dsp is not instrumented: report what it reads and writes to the race detector
extern "C" {
void __tsan_read_range(void*, size_t); void __tsan_write_range(void*, size_t);
int __real_firfilt_rrrf_execute_block(firfilt_rrrf, float*, unsigned, float*);
int __wrap_firfilt_rrrf_execute_block(firfilt_rrrf q, float* x, unsigned n, float* y) { __tsan_read_range(x, n * 4ul); __tsan_write_range(y, n * 4ul); return __real_firfilt_rrrf_execute_block(q, x, n, y); }
int __real_firfilt_crcf_execute_block(firfilt_crcf, liquid_float_complex*, unsigned, liquid_float_complex*);
int __wrap_firfilt_crcf_execute_block(firfilt_crcf q, liquid_float_complex* x, unsigned n, liquid_float_complex* y) { __tsan_read_range(x, n * 8ul); __tsan_write_range(y, n * 8ul); return __real_firfilt_crcf_execute_block(q, x, n, y); }
int __real_msresamp_rrrf_execute(msresamp_rrrf, float*, unsigned, float*, unsigned*);
int __wrap_msresamp_rrrf_execute(msresamp_rrrf q, float* x, unsigned n, float* y, unsigned* m) { __tsan_read_range(x, n * 4ul); int e = __real_msresamp_rrrf_execute(q, x, n, y, m); __tsan_write_range(y, *m * 4ul); return e; }
int __real_msresamp_crcf_execute(msresamp_crcf, liquid_float_complex*, unsigned, liquid_float_complex*, unsigned*);
int __wrap_msresamp_crcf_execute(msresamp_crcf q, liquid_float_complex* x, unsigned n, liquid_float_complex* y, unsigned* m) { __tsan_read_range(x, n * 8ul); int e = __real_msresamp_crcf_execute(q, x, n, y, m); __tsan_write_range(y, *m * 8ul); return e; }
int __real_freqdem_demodulate_block(freqdem, liquid_float_complex*, unsigned, float*);
int __wrap_freqdem_demodulate_block(freqdem q, liquid_float_complex* x, unsigned n, float* y) { __tsan_read_range(x, n * 8ul); __tsan_write_range(y, n * 4ul); return __real_freqdem_demodulate_block(q, x, n, y); }
int __real_firpfbch_crcf_analyzer_execute(firpfbch_crcf, liquid_float_complex*, liquid_float_complex*);
int __wrap_firpfbch_crcf_analyzer_execute(firpfbch_crcf q, liquid_float_complex* x, liquid_float_complex* y) { __tsan_read_range(x, 16); __tsan_write_range(y, 16); return __real_firpfbch_crcf_analyzer_execute(q, x, y); }
}

static unsigned C(unsigned n) { Quiet z; return sim::cfg(n); }
static unsigned Wk(unsigned n) { Quiet z; return sim::work(n); }
static size_t chunk() { Quiet z; switch (sim::work(8)) { case 1: return 1; case 2: return 1 + sim::work(4); case 3: return 1 + sim::work(64); case 4: case 5: return 1 + sim::work(700); default: return 100000; } }

// feeds a prepared stream in random portions by random operations
// a graph that moves nothing for this many steps stands still; a slow one is not penalised
static void progress() { sim::set_step_limit(sim::steps() + 3000000, "stalled"); }
template <class T> struct Src : cler::BlockBase {
    const std::vector<T>& d; size_t pos = 0; bool dbf;
    Src(const std::vector<T>& d_, bool dbf_) : BlockBase("src"), d(d_), dbf(dbf_) {}
    Result<Empty, Error> procedure(ChannelBase<T>* out) {
        if (pos == d.size()) return Error::NotEnoughSamples;
        if (Wk(6) == 5) return Error::NotEnoughSamples;
        size_t k = std::min(chunk(), d.size() - pos), did = 0;
        switch (Wk(dbf ? 4 : 3)) {
            case 0: did = out->writeN(d.data() + pos, k); break;
            case 1: k = std::min<size_t>(k, 12); while (did < k && out->try_push(d[pos + did])) did++; break;
            case 2: { T *a, *b; size_t n, m; out->peek_write(a, n, b, m); n = std::min(n, k); m = std::min(m, k - n);
                if (n) memcpy((void*)a, d.data() + pos, n * sizeof(T)); if (m) memcpy((void*)b, d.data() + pos + n, m * sizeof(T)); did = n + m; if (did) out->commit_write(did); break; }
            case 3: { auto w = out->write_dbf(); did = std::min(k, w.second); if (did) { memcpy((void*)w.first, d.data() + pos, did * sizeof(T)); out->commit_write(did); } break; }
        }
        pos += did; { Quiet z; if (did) progress(); if (sim::verbose()) sim::note("src %zu pos %zu", did, pos); }
        if (did) return Empty{};
        return Error::NotEnoughSpace;
    }
};
static double mag(float x) { return std::fabs(x); }
static double mag(cf x) { return std::abs(x); }
// compares what arrives with the expected stream
template <class T> struct Snk : cler::BlockBase {
    Channel<T> in; const std::vector<T>& e; size_t pos = 0; double tol; bool dbf; const char* what; unsigned stall = 0;
    T buf[800];
    Snk(const std::vector<T>& e_, double tol_, size_t cap, const char* w) : BlockBase("snk"), in(cap), e(e_), tol(tol_), what(w) { dbf = in._queue.is_doubly_mapped(); }
    NOTSAN void check(const T* p, size_t n, size_t at) {
        Quiet z;
        for (size_t i = 0; i < n; i++) {
            if (at + i >= e.size()) sim::fail("extra-output", "%s: output number %zu arrives, %zu inputs are worth %zu", what, at + i, e.size(), e.size());
            double d = mag(p[i] - e[at + i]);
            if (!(d <= tol * (1 + mag(e[at + i])))) sim::fail("wrong-output", "%s: output number %zu differs by %g from the reference (%g instead of %g, magnitudes)", what, at + i, d, mag(p[i]), mag(e[at + i]));
        }
    }
    Result<Empty, Error> procedure() {
        if (stall) { stall--; return Error::NotEnoughSamples; }
        { Quiet z; if (sim::work(12) == 11) stall = sim::work(40); }
        size_t k = chunk(), did = 0;
        switch (Wk(dbf ? 4 : 3)) {
            case 0: did = in.readN(buf, std::min<size_t>(k, 800)); check(buf, did, pos); break;
            case 1: k = std::min<size_t>(k, 12); while (did < k && in.try_pop(buf[did])) did++; check(buf, did, pos); break;
            case 2: { const T *a, *b; size_t n, m; in.peek_read(a, n, b, m); n = std::min({n, k, (size_t)800}); m = std::min(m, std::min(k, (size_t)800) - n);
                if (n) memcpy((void*)buf, a, n * sizeof(T)); if (m) memcpy((void*)(buf + n), b, m * sizeof(T)); did = n + m; check(buf, did, pos); if (did) in.commit_read(did); break; }
            case 3: { auto r = in.read_dbf(); did = std::min({k, r.second, (size_t)800}); if (did) { memcpy((void*)buf, r.first, did * sizeof(T)); check(buf, did, pos); in.commit_read(did); } break; }
        }
        pos += did; { Quiet z; if (did) progress(); if (sim::verbose()) sim::note("snk %zu pos %zu", did, pos); }
        if (did) return Empty{};
        return Error::NotEnoughSamples;
    }
};
static cler::FlowGraphConfig rcfg() {
    Quiet z; cler::FlowGraphConfig c;
    c.scheduler = sim::cfg(2) ? cler::SchedulerType::FixedThreadPool : cler::SchedulerType::ThreadPerBlock;
    c.num_workers = 2 + sim::cfg(2);
    c.adaptive_sleep = sim::cfg(4) == 0; c.adaptive_sleep_max_us = 100; c.adaptive_sleep_fail_threshold = 3;
    static const size_t mc[4] = {4, 1, 2, 8}; c.max_calls_per_tick = mc[sim::cfg(4)];
    return c;
}
// a graph is a list of blocks with their outputs: it runs in a flowgraph, or (C28) in a loop of our own
static bool HAND = false;
template <class... R> struct Graph { std::tuple<R...> r; };
template <class... R> static Graph<R...> make_graph(R... r) { return Graph<R...>{std::tuple<R...>(r...)}; }
template <class R> static bool call(R& r) {
    Result<Empty, Error> e = std::apply([&](auto*... o) { return r.block->procedure(o...); }, r.outputs);
    if (e.is_ok()) return true;
    if (cler::is_fatal(e.unwrap_err())) sim::fail("fatal-result", "called by hand, block %s reports a fatal error: %s", r.block->name(), cler::to_str(e.unwrap_err()));
    return false;
}
template <class... R> static void by_hand(Graph<R...>& g, const std::function<bool()>& done, const std::function<void()>& conserve, const char* what) {
    constexpr size_t N = sizeof...(R); unsigned order = C(4); std::vector<size_t> idle(N, 0);
    { Quiet z; progress(); static const char* on[4] = {"forward", "backward", "shuffled", "one at a time until it rests"}; sim::sample("%s, by hand, %s", what, on[order]); }
    auto one = [&](size_t i) { size_t k = 0; bool ok = false; std::apply([&](auto&... r) { ((k++ == i ? (void)(ok = call(r)) : (void)0), ...); }, g.r); { Quiet z; conserve(); } return ok; };
    for (;;) {
        { Quiet z; if (done()) break; }
        for (size_t i = 0; i < N; i++) {
            size_t b = order == 1 ? N - 1 - i : order == 2 ? Wk(N) : i;
            if (order == 3) { for (unsigned c = 0; c < 6 && one(b); c++) {} } else one(b);
        }
    }
    Quiet z; sim::nontrivial();
}
// runs until `done`, sometimes stopping and starting again in between
template <class... R> static void drive(Graph<R...>& g, const std::function<bool()>& done, const std::function<void()>& conserve, const char* what) {
    if (HAND) return by_hand(g, done, conserve, what);
    auto fg = std::apply([](auto&... r) { return cler::make_desktop_flowgraph(r...); }, g.r);
    auto c = rcfg();
    unsigned restarts = C(3) == 0 ? 1 + C(3) : 0;
    { Quiet z; sim::set_rate(sim::F_STALL, sim::cfg(4) == 0 ? 2 : 0); progress();
      sim::sample("%s, %s, batch %zu%s, %u restarts", what, c.scheduler == cler::SchedulerType::FixedThreadPool ? "pool" : "thread per block", c.max_calls_per_tick, c.adaptive_sleep ? ", adaptive sleep" : "", restarts); }
    for (;;) {
        fg.run(c);
        struct A { const std::function<bool()>* d; } a{&done};
        auto pred = [](void* p) { Quiet z; return (*((A*)p)->d)(); };
        if (restarts) { restarts--; sim::block_until(pred, &a, 1000 + Wk(400000)); }
        else sim::block_until(pred, &a, 0);
        bool end; { Quiet z; end = done(); }
        fg.stop();
        if (fg.is_stopped() == false) sim::fail("not-stopped", "is_stopped() is false after stop()");
        { Quiet z; conserve(); }
        if (end) break;
        if (C(2)) c = rcfg();
    }
    Quiet z; sim::nontrivial();
}
template <class T> static std::vector<T> stream(size_t n);
template <> std::vector<float> stream<float>(size_t n) { std::vector<float> v(n); for (size_t i = 0; i < n; i++) v[i] = 1 + (float)(i % 251) + 0.25f * (float)(i % 7); return v; }
template <> std::vector<cf> stream<cf>(size_t n) { std::vector<cf> v(n); for (size_t i = 0; i < n; i++) v[i] = cf(1 + (float)(i % 251), (float)(i % 37) - 18); return v; }
static size_t count_for(size_t ring, size_t ring2 = 1 << 20) { size_t n = ring + 40 + Wk(1200), m = 40 + 25 * ring2; return n < m ? n : m; }

// one input stream, one output stream, one output per input
template <class T, class U, class B> static void map1(B& b, size_t n_in, size_t outcap, const std::vector<T>& x, const std::vector<U>& y, double tol, const char* what, bool one_to_one = true) {
    Src<T> s(x, b.in._queue.is_doubly_mapped()); Snk<U> k(y, tol, outcap, what); (void)n_in;
    {
        auto fg = make_graph(BlockRunner(&s, &b.in), BlockRunner(&b, &k.in), BlockRunner(&k));
        drive(fg, [&] { return k.pos == y.size() && s.pos == x.size() && b.in._queue.empty(); }, [&] {
            if (one_to_one && s.pos != k.pos + b.in.size() + k.in.size()) sim::fail("not-conserved", "%s: with the graph stopped, %zu samples went in, %zu came out, %zu wait before and %zu behind the block", what, s.pos, k.pos, b.in.size(), k.in.size());
        }, what);
    }
    if (k.in.size() || b.in.size()) sim::fail("extra-output", "%s: %zu samples are left in the channels after the whole stream", what, k.in.size() + b.in.size());
}
static size_t dbf_cap(size_t sz) { Quiet z; size_t base = 4096 / sz; return base + (sim::cfg(3) == 0 ? sim::cfg(600) : 0); }
static size_t any_cap(size_t sz) { Quiet z; switch (sim::cfg(4)) { case 0: return 1 + sim::cfg(8); case 1: return 1 + sim::cfg(100); case 2: return 4096 / sz; default: return 4096 / sz + sim::cfg(300); } }
template <class T> static void fill_ref(std::vector<T>& y, const std::vector<T>& x, const std::function<T(T)>& f) { for (auto& v : x) y.push_back(f(v)); }

static void b_gain() {
    if (C(2)) { std::vector<float> x, y; size_t ci = any_cap(4), co = any_cap(4); { Quiet z; x = stream<float>(count_for(std::min<size_t>(ci, 1024), std::min(ci, co)) ); fill_ref<float>(y, x, [](float v) { return v * 2.5f; }); }
        GainBlock<float> b("gain", 2.5f, ci); map1(b, ci, co, x, y, 1e-5, "gain (float)"); }
    else { std::vector<cf> x, y; size_t ci = any_cap(8), co = any_cap(8); { Quiet z; x = stream<cf>(count_for(std::min<size_t>(ci, 1024), std::min(ci, co))); fill_ref<cf>(y, x, [](cf v) { return v * cf(0.5f, 2); }); }
        GainBlock<cf> b("gain", cf(0.5f, 2), ci); map1(b, ci, co, x, y, 1e-5, "gain (complex)"); }
}
static void b_throughput() {
    std::vector<float> x; size_t ci = dbf_cap(4); { Quiet z; x = stream<float>(count_for(ci)); }
    ThroughputBlock<float> b("tp", ci); map1(b, ci, dbf_cap(4), x, x, 0, "throughput meter");
    if (b.samples_passed() != x.size()) sim::fail("miscount", "the throughput meter counted %zu of %zu samples", b.samples_passed(), x.size());
}
static void b_awgn() {
    if (C(2)) { std::vector<float> x; size_t ci = any_cap(4), co = any_cap(4); { Quiet z; x = stream<float>(count_for(std::min<size_t>(ci, 1024), std::min(ci, co))); for (auto& v : x) v = std::floor(v); }
        NoiseAWGNBlock<float> b("awgn", 0.003f, ci); map1(b, ci, co, x, x, 0.04, "noise (float)"); }
    else { std::vector<cf> x; size_t ci = any_cap(8), co = any_cap(8); { Quiet z; x = stream<cf>(count_for(std::min<size_t>(ci, 1024), std::min(ci, co))); }
        NoiseAWGNBlock<cf> b("awgn", 0.003f, ci); map1(b, ci, co, x, x, 0.04, "noise (complex)"); }
}
static void b_shift() {
    std::vector<cf> x, y; size_t ci = any_cap(8), co = any_cap(8);
    { Quiet z; x = stream<cf>(count_for(std::min<size_t>(ci, 1024), std::min(ci, co))); for (size_t i = 0; i < x.size(); i++) y.push_back(cf(std::complex<double>(x[i]) * std::polar(1.0, 2 * M_PI * 1700.0 / 48000.0 * (double)i))); }
    FrequencyShiftBlock b("shift", 1700, 48000, ci); map1(b, ci, co, x, y, 2e-3, "frequency shift");
}
static void b_lpf() {
    if (C(2)) { std::vector<float> x, y; size_t ci = dbf_cap(4); { Quiet z; x = stream<float>(count_for(ci)); y.resize(x.size()); unsigned o = (unsigned)std::ceil(60.0 / (22.0f * 0.1f)); if (o % 2 == 0) o++; auto q = firfilt_rrrf_create_kaiser(o, 0.2f, 60.0f, 0); firfilt_rrrf_execute_block(q, x.data(), x.size(), y.data()); firfilt_rrrf_destroy(q); }
        KaiserLPFBlock<float> b("lpf", 100e3, 20e3, 10e3, 60.0, ci); map1(b, ci, dbf_cap(4), x, y, 1e-3, "low-pass filter (float)"); }
    else { std::vector<cf> x, y; size_t ci = dbf_cap(8); { Quiet z; x = stream<cf>(count_for(ci)); y.resize(x.size()); unsigned o = (unsigned)std::ceil(60.0 / (22.0f * 0.1f)); if (o % 2 == 0) o++; auto q = firfilt_crcf_create_kaiser(o, 0.2f, 60.0f, 0); firfilt_crcf_execute_block(q, (liquid_float_complex*)x.data(), x.size(), (liquid_float_complex*)y.data()); firfilt_crcf_destroy(q); }
        KaiserLPFBlock<cf> b("lpf", 100e3, 20e3, 10e3, 60.0, ci); map1(b, ci, dbf_cap(8), x, y, 1e-3, "low-pass filter (complex)"); }
}
static void b_fm() {
    std::vector<cf> x; std::vector<float> y; size_t ci = dbf_cap(8);
    { Quiet z; size_t n = count_for(ci); double ph = 0; for (size_t i = 0; i < n; i++) { ph += 0.3 * std::sin(i * 0.07) + 0.2 * ((i * 7919) % 13) / 13.0; x.push_back(cf(std::polar(1.0, ph))); }
      y.resize(n); auto q = freqdem_create((float)(75e3 / 400e3)); freqdem_demodulate_block(q, (liquid_float_complex*)x.data(), n, y.data()); freqdem_destroy(q); }
    FMDemodBlock b("fm", 400e3, 75e3, ci); map1(b, ci, dbf_cap(4), x, y, 1e-3, "FM demodulator");
}
static void b_resample() {
    static const float rs[12] = {0.5f, 2.0f, 0.37f, 1.0f, 1.7f, 0.9f, 3.3f, 0.11f, 8.25f, 0.03f, 40.5f, 199.0f};
    float r = rs[C(12)]; std::string nm = "resampler, ratio " + std::to_string(r);
    if (C(2)) { std::vector<float> x, y; size_t ci = dbf_cap(4); { Quiet z; x = stream<float>(count_for(ci)); if (r > 10) x.resize((size_t)(4000 / r) + Wk((unsigned)(4000 / r))); y.resize((size_t)(x.size() * r * 1.2) + 400); auto q = msresamp_rrrf_create(r, 60); unsigned m = 0; msresamp_rrrf_execute(q, x.data(), x.size(), y.data(), &m); y.resize(m); msresamp_rrrf_destroy(q); }
        MultiStageResamplerBlock<float> b("rs", r, 60, ci); map1(b, ci, 16 + any_cap(4), x, y, 1e-3, nm.c_str(), false); }
    else { std::vector<cf> x, y; size_t ci = dbf_cap(8); { Quiet z; x = stream<cf>(count_for(ci)); if (r > 10) x.resize((size_t)(4000 / r) + Wk((unsigned)(4000 / r))); y.resize((size_t)(x.size() * r * 1.2) + 400); auto q = msresamp_crcf_create(r, 60); unsigned m = 0; msresamp_crcf_execute(q, (liquid_float_complex*)x.data(), x.size(), (liquid_float_complex*)y.data(), &m); y.resize(m); msresamp_crcf_destroy(q); }
        MultiStageResamplerBlock<cf> b("rs", r, 60, ci); map1(b, ci, 16 + any_cap(8), x, y, 1e-3, nm.c_str(), false); }
}
static void s_map() {
    switch (C(6)) { case 0: b_gain(); break; case 1: b_throughput(); break; case 2: b_awgn(); break; case 3: b_shift(); break; case 4: b_lpf(); break; case 5: b_fm(); break; }
}
static void s_resample() { b_resample(); }
// ---- several inputs or outputs
template <class A, class B> static bool all_done(A& a, B& b) { return a.pos == a.e.size() && b.pos == b.e.size(); }
static void b_add2() {
    std::vector<float> x1, x2, y; size_t cap = dbf_cap(4);
    { Quiet z; x1 = stream<float>(count_for(cap)); x2 = x1; for (size_t i = 0; i < x2.size(); i++) { x2[i] = (float)((i * 31) % 113) * 1000; y.push_back(x1[i] + x2[i]); } }
    AddBlock<float> b("add", 2, cap); Src<float> s1(x1, true), s2(x2, true); Snk<float> k(y, 1e-6, dbf_cap(4), "sum of two");
    { auto fg = make_graph(BlockRunner(&s1, &b.in[0]), BlockRunner(&s2, &b.in[1]), BlockRunner(&b, &k.in), BlockRunner(&k));
      drive(fg, [&] { return k.pos == y.size(); }, [&] { if (s1.pos != k.pos + k.in.size() + b.in[0].size() || s2.pos != k.pos + k.in.size() + b.in[1].size()) sim::fail("not-conserved", "sum: %zu and %zu samples went in, %zu came out, %zu and %zu wait before and %zu behind the block", s1.pos, s2.pos, k.pos, b.in[0].size(), b.in[1].size(), k.in.size()); }, "sum of two"); }
}
static void b_add3() {
    std::vector<cf> x1, x2, x3, y; size_t cap = dbf_cap(8);
    { Quiet z; x1 = stream<cf>(count_for(cap)); for (size_t i = 0; i < x1.size(); i++) { x2.push_back(cf((float)((i * 31) % 113) * 1000, 0)); x3.push_back(cf(0, (float)((i * 17) % 71) * 500)); y.push_back(x1[i] + x2[i] + x3[i]); } }
    AddBlock<cf> b("add", 3, cap); Src<cf> s1(x1, true), s2(x2, true), s3(x3, true); Snk<cf> k(y, 1e-6, dbf_cap(8), "sum of three");
    { auto fg = make_graph(BlockRunner(&s1, &b.in[0]), BlockRunner(&s2, &b.in[1]), BlockRunner(&s3, &b.in[2]), BlockRunner(&b, &k.in), BlockRunner(&k));
      drive(fg, [&] { return k.pos == y.size(); }, [&] { size_t o = k.pos + k.in.size(); if (s1.pos != o + b.in[0].size() || s2.pos != o + b.in[1].size() || s3.pos != o + b.in[2].size()) sim::fail("not-conserved", "sum of three: %zu outputs for %zu, %zu, %zu consumed inputs", o, s1.pos - b.in[0].size(), s2.pos - b.in[1].size(), s3.pos - b.in[2].size()); }, "sum of three"); }
}
static void b_fanout() {
    std::vector<float> x; size_t cap = dbf_cap(4); { Quiet z; x = stream<float>(count_for(cap)); }
    FanoutBlock<float> b("fan", 3, cap); Src<float> s(x, true); Snk<float> k1(x, 0, dbf_cap(4), "fan-out 1"), k2(x, 0, dbf_cap(4), "fan-out 2"), k3(x, 0, dbf_cap(4), "fan-out 3");
    { auto fg = make_graph(BlockRunner(&s, &b.in), BlockRunner(&b, &k1.in, &k2.in, &k3.in), BlockRunner(&k1), BlockRunner(&k2), BlockRunner(&k3));
      drive(fg, [&] { return all_done(k1, k2) && k3.pos == x.size(); }, [&] { size_t c = s.pos - b.in.size(); if (k1.pos + k1.in.size() != c || k2.pos + k2.in.size() != c || k3.pos + k3.in.size() != c) sim::fail("not-conserved", "fan-out: %zu samples consumed, %zu %zu %zu emitted", c, k1.pos + k1.in.size(), k2.pos + k2.in.size(), k3.pos + k3.in.size()); }, "fan-out to three"); }
}
static void b_demux() {
    std::vector<cf> x; std::vector<float> a, p; size_t cap = dbf_cap(8), o1 = any_cap(4), o2 = any_cap(4); bool mp = C(2);
    { Quiet z; x = stream<cf>(count_for(cap, std::min(o1, o2))); for (auto v : x) { a.push_back(mp ? std::abs(v) : v.real()); p.push_back(mp ? std::arg(v) : v.imag()); } }
    ComplexToMagPhaseBlock b("demux", mp ? ComplexToMagPhaseBlock::MagPhase : ComplexToMagPhaseBlock::RealImag, cap);
    Src<cf> s(x, true); Snk<float> k1(a, 1e-5, o1, "complex demux, first output"), k2(p, 1e-5, o2, "complex demux, second output");
    { auto fg = make_graph(BlockRunner(&s, &b.in), BlockRunner(&b, &k1.in, &k2.in), BlockRunner(&k1), BlockRunner(&k2));
      drive(fg, [&] { return all_done(k1, k2); }, [&] { size_t c = s.pos - b.in.size(); if (k1.pos + k1.in.size() != c || k2.pos + k2.in.size() != c) sim::fail("not-conserved", "complex demux: %zu samples consumed, %zu and %zu emitted", c, k1.pos + k1.in.size(), k2.pos + k2.in.size()); }, "complex demux"); }
}
static void b_chan() {
    std::vector<cf> x, y1, y2; { Quiet z; x = stream<cf>((count_for(1024) / 2) * 2);
      auto q = firpfbch_crcf_create_kaiser(LIQUID_ANALYZER, 2, 4, 60.0f); cf o[2]; for (size_t i = 0; i < x.size(); i += 2) { firpfbch_crcf_analyzer_execute(q, (liquid_float_complex*)&x[i], (liquid_float_complex*)o); y1.push_back(o[0]); y2.push_back(o[1]); } firpfbch_crcf_destroy(q); }
    PolyphaseChannelizerBlock b("ch", 2, 60.0f, 4); Src<cf> s(x, true); Snk<cf> k1(y1, 1e-3, dbf_cap(8), "channelizer 1"), k2(y2, 1e-3, dbf_cap(8), "channelizer 2");
    { auto fg = make_graph(BlockRunner(&s, &b.in), BlockRunner(&b, &k1.in, &k2.in), BlockRunner(&k1), BlockRunner(&k2));
      drive(fg, [&] { return all_done(k1, k2); }, [&] { size_t c = s.pos - b.in.size(); if (2 * (k1.pos + k1.in.size()) != c || 2 * (k2.pos + k2.in.size()) != c) sim::fail("not-conserved", "channelizer: %zu samples consumed, %zu and %zu emitted", c, k1.pos + k1.in.size(), k2.pos + k2.in.size()); }, "channelizer"); }
}
static void s_multi() { switch (C(5)) { case 0: b_add2(); break; case 1: b_add3(); break; case 2: b_fanout(); break; case 3: b_demux(); break; case 4: b_chan(); break; } }
// ---- generators and the null sink
template <class B, class T> static void gen(B& b, const std::vector<T>& y, double tol, const char* what) {
    struct Lim : Snk<T> { using Snk<T>::Snk; Result<Empty, Error> procedure() { if (this->pos + 1600 > this->e.size()) { return Error::NotEnoughSamples; } return Snk<T>::procedure(); } };
    Lim k(y, tol, dbf_cap(sizeof(T)), what);
    { auto fg = make_graph(BlockRunner(&b, &k.in), BlockRunner(&k)); drive(fg, [&] { return k.pos + 1600 > y.size(); }, [] {}, what); }
}
static void s_gen() {
    size_t n = 3200 + Wk(1200);
    switch (C(4)) {
        case 0: { std::vector<cf> y; { Quiet z; for (size_t i = 0; i < n; i++) y.push_back(cf(std::polar(3.0, 2 * M_PI * 1000 / 48000.0 * (double)i))); } SourceCWBlock<cf> b("cw", 3, 1000, 48000); gen(b, y, 5e-3, "tone (complex)"); break; }
        case 1: { std::vector<float> y; { Quiet z; for (size_t i = 0; i < n; i++) y.push_back((float)(3.0 * std::cos(2 * M_PI * 1000 / 48000.0 * (double)i))); } SourceCWBlock<float> b("cw", 3, 1000, 48000); gen(b, y, 5e-3, "tone (real)"); break; }
        default: { // a linear chirp that starts again after each sweep: the phase advances by a frequency that grows per sample
            std::vector<cf> y; { Quiet z; size_t per = 700; double w0 = 2 * M_PI * 100 / 7000.0, a = 2 * M_PI * ((1500 - 100) / 0.1) / 7000.0 / 7000.0, ph = 0, w = w0; size_t c = 0;
              for (size_t i = 0; i < n; i++) { y.push_back(cf(std::polar(2.0, ph))); ph += w; w += a; if (++c == per) { c = 0; ph = 0; w = w0; } } }
            SourceChirpBlock<cf> b("chirp", 2, 100, 1500, 7000, 0.1f); gen(b, y, 2e-2, "chirp"); break; }
    }
}
struct NullCtx { size_t pos = 0; const std::vector<float>* x; };
static size_t null_cb(Channel<float>* in, void* p) {
    NullCtx& c = *(NullCtx*)p; const float *a, *b; size_t n, m; in->peek_read(a, n, b, m);
    size_t k = std::min<size_t>(chunk() - (Wk(3) == 0), n + m);
    for (size_t i = 0; i < k; i++) { float v = i < n ? a[i] : b[i - n]; if (v != (*c.x)[c.pos]) sim::fail("wrong-output", "the null sink's callback is offered sample %g where %g is next", v, (*c.x)[c.pos]); c.pos++; }
    return k;
}
static void s_null() {
    std::vector<float> x; size_t cap = any_cap(4); bool cb = C(3) != 0; { Quiet z; x = stream<float>(count_for(std::min<size_t>(cap, 1024), cap)); }
    NullCtx c; c.x = &x; SinkNullBlock<float> k("null", cb ? null_cb : nullptr, &c, cap); Src<float> s(x, k.in._queue.is_doubly_mapped());
    { auto fg = make_graph(BlockRunner(&s, &k.in), BlockRunner(&k));
      drive(fg, [&] { return s.pos == x.size() && (cb ? c.pos == x.size() : k.in._queue.empty()); }, [&] { if (cb && s.pos != c.pos + k.in.size()) sim::fail("not-conserved", "null sink: %zu samples went in, %zu were offered, %zu wait", s.pos, c.pos, k.in.size()); }, cb ? "null sink with callback" : "null sink"); }
    if (k.in.size()) sim::fail("not-conserved", "null sink: %zu samples are left", k.in.size());
}
// ---- a longer chain: gain -> meter -> fan-out -> (gain, shift by 0) -> sum
static void s_chain() {
    std::vector<float> x, y; size_t gc = any_cap(4); { Quiet z; x = stream<float>(count_for(1024, gc)); for (auto v : x) y.push_back(v * 2 + v * 2 * 3); }
    GainBlock<float> g("g", 2.0f, gc); Src<float> s(x, g.in._queue.is_doubly_mapped()); ThroughputBlock<float> t("t", dbf_cap(4)); FanoutBlock<float> f("f", 2, dbf_cap(4)); GainBlock<float> h("h", 3.0f, dbf_cap(4)); AddBlock<float> a("a", 2, dbf_cap(4));
    Snk<float> k(y, 1e-5, dbf_cap(4), "chain");
    { auto fg = make_graph(BlockRunner(&s, &g.in), BlockRunner(&g, &t.in), BlockRunner(&t, &f.in), BlockRunner(&f, &a.in[0], &h.in), BlockRunner(&h, &a.in[1]), BlockRunner(&a, &k.in), BlockRunner(&k));
      drive(fg, [&] { return k.pos == y.size(); }, [&] { if (s.pos != k.pos + k.in.size() + a.in[0].size() + f.in.size() + t.in.size() + g.in.size()) sim::fail("not-conserved", "chain: %zu samples in, %zu out, %zu+%zu+%zu+%zu+%zu in the channels", s.pos, k.pos, g.in.size(), t.in.size(), f.in.size(), a.in[0].size(), k.in.size()); }, "gain, meter, fan-out, gain, sum"); }
}

// ---- C28: the same streams, every block called in turn from one thread
static void s_loop() {
    HAND = true;
    switch (C(8)) { case 0: case 1: case 2: s_map(); break; case 3: case 4: s_multi(); break; case 5: s_chain(); break; case 6: if (C(2)) s_null(); else s_gen(); break; case 7: s_resample(); break; }
}

static const sim::Scenario S[] = {{"map", 3, s_map}, {"multi", 3, s_multi}, {"resample", 1, s_resample}, {"gen", 1, s_gen}, {"null", 1, s_null}, {"chain", 1, s_chain}, {"loop", 1, s_loop}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
