#include <deque>
// C19: radio and audio device blocks.  The device libraries are stand-ins (harness/dev): each behaves
// like a driver whose pace, transfer sizes, status codes and failures the simulator chooses.
#include "common.hpp"
#include <atomic>
#include <iostream>
#include <map>
#include "desktop_blocks/sources/source_hackrf.hpp"
#include "desktop_blocks/sinks/sink_hackrf.hpp"
#define get_soapy_format get_soapy_format_rx
#include "desktop_blocks/sources/source_soapysdr.hpp"
#undef get_soapy_format
#define get_soapy_format get_soapy_format_tx
#include "desktop_blocks/sinks/sink_soapysdr.hpp"
#undef get_soapy_format
#include "desktop_blocks/sources/source_cariboulite.hpp"
#include "desktop_blocks/sinks/sink_audio.hpp"
#include "desktop_blocks/sources/source_uhd.hpp"
#include "desktop_blocks/sinks/sink_uhd.hpp"

// ---- samples: number k of channel ch, in every sample format
template <class T> struct Enc;
template <class R> struct Enc<std::complex<R>> { static std::complex<R> at(uint64_t k, unsigned ch) { k += ch * 7919; if constexpr (sizeof(R) == 4) return {(R)(k % 8000000) + 1, -(R)ch - (R)0.5}; else if constexpr (sizeof(R) == 2) return {(R)(k * 2 + 1), (R)(k >> 12 ^ (ch << 8))}; else return {(R)k, (R)(k >> 8 ^ (ch << 6))}; } };
template <> struct Enc<float> { static float at(uint64_t k, unsigned ch) { return (float)(k + ch * 7919 + 1) / 65536.f; } };
template <> struct Enc<int16_t> { static int16_t at(uint64_t k, unsigned ch) { return (int16_t)(k * 3 + 1 + ch * 7919); } };
template <class T> static T junk() { T t; memset((void*)&t, 0x7a, sizeof t); return t; }
template <class T> NOTSAN static bool same(const T& a, const T& b) { return !memcmp((const void*)&a, (const void*)&b, sizeof(T)); }

// ---- what the drivers did
struct Dev {
    int open = 0, opened = 0, closed = 0, streams = 0, active = 0, setup_faults = 0, inits = 0;
    uint64_t delivered = 0, taken = 0;         // samples handed out / accepted (per channel)
    unsigned errs = 0, overflows = 0, underflows = 0, timeouts = 0, calls = 0, moved = 0;
    bool setting_up = false; double freq = 0;
    size_t mtu = 512, nch = 1, fmt_size = 8; bool slow = false;
};
static Dev d;
static bool flt(sim::Fault f) { Quiet z; return sim::fault(f); }
static unsigned pick(sim::Fault f, unsigned n) { Quiet z; return sim::fault_pick(f, n); }
static bool setup_fault() { if (!flt(sim::F_DEV_ERR)) return false; Quiet z; d.setup_faults++; return true; }
static void pause_() { uint64_t ns; { Quiet z; ns = 200 + sim::work(d.slow ? 60000 : 4000); } std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }
[[noreturn]] static void misuse(const char* what) { sim::fail("device-misuse", "%s", what); }
// how many of n samples a driver call moves; <0: its status instead
enum { S_TIMEOUT = -1, S_FLOW = -2, S_ERR = -3 };
static int status(size_t n) {
    { Quiet z; d.calls++; }
    if (flt(sim::F_DEV_ERR)) { Quiet z; d.errs++; return S_ERR; }
    if (flt(sim::F_DEV_OVERFLOW)) { Quiet z; d.overflows++; return S_FLOW; }
    if (flt(sim::F_DEV_TIMEOUT)) { pause_(); Quiet z; d.timeouts++; return S_TIMEOUT; }
    if (flt(sim::F_DEV_STALL)) { uint64_t ns; { Quiet z; ns = 20000 + sim::fault_pick(sim::F_DEV_STALL, 100) * 1000; } std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }
    Quiet z; size_t k = n; if (n > d.mtu) k = d.mtu;
    if (sim::work(4) == 1) k = 1 + sim::work((uint32_t)k);
    if (k > 1 && sim::fault(sim::F_DEV_SHORT)) k = 1 + sim::fault_pick(sim::F_DEV_SHORT, (uint32_t)k - 1);
    return (int)k;
}
template <class T> static void deliver(void* buf, size_t asked, size_t k, unsigned ch) {   // a driver may use the whole buffer it was given
    T* p = (T*)buf; for (size_t i = 0; i < asked; i++) p[i] = i < k ? Enc<T>::at(d.delivered + i, ch) : junk<T>();
}
template <class T> static void accept(const void* buf, size_t asked, size_t k, unsigned ch) {
    const T* p = (const T*)buf; T v;
    for (size_t i = 0; i < asked; i++) { v = p[i]; if (!same(v, Enc<T>::at(d.taken + i, ch))) sim::fail("wrong-sample", "the driver is given a sample that is not number %llu of the stream of channel %u", (unsigned long long)(d.taken + i), ch); }
    (void)k;
}
static void by_format(const std::string& f, void* w, const void* r, size_t asked, size_t k, unsigned ch) {
    std::string g; { Quiet z; g = f; for (auto& c : g) c = (char)toupper(c); }
#define X(N, T) if (g == N) { if (w) deliver<T>(w, asked, k, ch); else accept<T>(r, asked, k, ch); return; }
    X("CF32", std::complex<float>) X("FC32", std::complex<float>) X("CS16", std::complex<int16_t>) X("SC16", std::complex<int16_t>) X("CS8", std::complex<int8_t>) X("SC8", std::complex<int8_t>) X("F32", float) X("S16", int16_t)
    sim::fail("wrong-format", "the device is set up for %s samples", f.c_str());
}

// ---------------------------------------------------------------- HackRF
struct hackrf_device { hackrf_sample_block_cb_fn cb = nullptr; void* ctx = nullptr; bool tx = false; std::thread th; std::atomic<bool> quit{false}; };
static hackrf_device* hdev; static void (*hack_driver)(hackrf_device*);
static int hres() { if (d.setting_up || true) if (setup_fault()) return -1000; return HACKRF_SUCCESS; }
static void hlive(hackrf_device* h) { if (!h || h != hdev) misuse("a HackRF call on a device that is not open"); }
extern "C" {
int hackrf_init() { int r = hres(); Quiet z; if (r == HACKRF_SUCCESS) d.inits++; return r; }
int hackrf_exit() { Quiet z; if (d.inits-- <= 0) misuse("hackrf_exit() without hackrf_init()"); if (!d.inits && d.open) misuse("hackrf_exit() with the device open"); return HACKRF_SUCCESS; }
int hackrf_open(hackrf_device** o) { if (int r = hres()) return r; if (hdev) misuse("the HackRF is opened twice"); Quiet z; hdev = new hackrf_device; *o = hdev; d.open++; d.opened++; return HACKRF_SUCCESS; }
int hackrf_set_freq(hackrf_device* h, uint64_t f) { hlive(h); if (int r = hres()) return r; Quiet z; d.freq = (double)f; return HACKRF_SUCCESS; }
int hackrf_set_sample_rate(hackrf_device* h, double) { hlive(h); return hres(); }
int hackrf_set_lna_gain(hackrf_device* h, uint32_t) { hlive(h); return hres(); }
int hackrf_set_vga_gain(hackrf_device* h, uint32_t) { hlive(h); return hres(); }
int hackrf_set_txvga_gain(hackrf_device* h, uint32_t) { hlive(h); return hres(); }
int hackrf_set_amp_enable(hackrf_device* h, uint8_t) { hlive(h); return hres(); }
static int hstart(hackrf_device* h, hackrf_sample_block_cb_fn cb, void* ctx, bool tx) { hlive(h); if (int r = hres()) return r; if (h->cb) misuse("the HackRF is started twice"); h->cb = cb; h->ctx = ctx; h->tx = tx; h->th = std::thread([h] { hack_driver(h); }); Quiet z; d.active++; return HACKRF_SUCCESS; }
static int hstop(hackrf_device* h) { hlive(h); if (h->th.joinable()) { h->quit = true; h->th.join(); Quiet z; d.active--; } return HACKRF_SUCCESS; }
int hackrf_start_rx(hackrf_device* h, hackrf_sample_block_cb_fn cb, void* ctx) { return hstart(h, cb, ctx, false); }
int hackrf_start_tx(hackrf_device* h, hackrf_sample_block_cb_fn cb, void* ctx) { return hstart(h, cb, ctx, true); }
int hackrf_stop_rx(hackrf_device* h) { return hstop(h); }
int hackrf_stop_tx(hackrf_device* h) { return hstop(h); }
int hackrf_close(hackrf_device* h) { hlive(h); hstop(h); Quiet z; d.open--; d.closed++; hdev = nullptr; delete h; return HACKRF_SUCCESS; }
}

// ---------------------------------------------------------------- blocks at the other end
// Calls the block under test and looks at what each call returned.
template <class B> struct Wrap : cler::BlockBase {
    B& b; bool fatal_errors; uint64_t calls = 0; std::function<void()> after;
    Wrap(B& b_, bool f) : BlockBase("device block"), b(b_), fatal_errors(f) {}
    template <class... O> Result<Empty, Error> procedure(O*... o) {
        unsigned e0; { Quiet z; e0 = d.errs; }
        auto r = b.procedure(o...);
        Quiet z; calls++; bool err = d.errs != e0;
        if (err && r.is_ok()) sim::fail("swallowed-error", "the driver reported an error and the block did not");
        if (err && fatal_errors && !cler::is_fatal(r.unwrap_err())) sim::fail("swallowed-error", "the driver reported an error and the block returned %s", cler::to_str(r.unwrap_err()));
        if (!err && r.is_err() && cler::is_fatal(r.unwrap_err())) sim::fail("false-error", "the driver reported no error and the block returned %s", cler::to_str(r.unwrap_err()));
        if (after) after();
        return r;
    }
};
template <class T> struct Collect : cler::BlockBase {
    TapChannel<T> in; uint64_t got = 0; unsigned lazy; std::function<void(const T&)> see; unsigned ch; T tmp[8192];
    Collect(size_t cap, unsigned l, unsigned c = 0) : BlockBase("collect"), in(cap), lazy(l), ch(c) {}
    NOTSAN void look(const T* p, size_t n) { for (size_t i = 0; i < n; i++) { Quiet z; T v = p[i]; if (see) see(v); else if (!same(v, Enc<T>::at(got, ch))) sim::fail("wrong-sample", "output number %llu of channel %u is not sample number %llu of the device", (unsigned long long)got, ch, (unsigned long long)got); got++; } Quiet z; progress(); }
    Result<Empty, Error> procedure() {
        bool nap; { Quiet z; nap = lazy && sim::work(lazy) == 1; }
        if (nap) { pause_(); return Error::NotEnoughSamples; }
        auto [p, n] = in.read_dbf(); if (!n) { T v; if (!in.try_pop(v)) return Error::NotEnoughSamples; look(&v, 1); return Empty{}; }
        if (lazy) { Quiet z; n = 1 + sim::work((uint32_t)n); }
        if (n > 8192) n = 8192; for (size_t i = 0; i < n; i++) tmp[i] = p[i];
        in.commit_read(n); look(tmp, n); return Empty{};
    }
};
template <class T> struct Produce : cler::BlockBase {
    uint64_t n, next = 0; unsigned ch, lazy; std::function<T(uint64_t)> make; std::vector<T> tmp_ = std::vector<T>(6000); T* tmp = tmp_.data();
    Produce(uint64_t n_, unsigned c, unsigned l) : BlockBase("produce"), n(n_), ch(c), lazy(l) {}
    Result<Empty, Error> procedure(ChannelBase<T>* out) {
        bool nap; { Quiet z; nap = next >= n || (lazy && sim::work(lazy) == 1); }
        if (nap) { pause_(); return Error::NotEnoughSamples; }
        unsigned k = 1 + Wk(Wk(8) == 1 ? 6000 : 300); { Quiet z; if (k > n - next) k = (unsigned)(n - next); for (unsigned i = 0; i < k; i++) tmp[i] = make ? make(next + i) : Enc<T>::at(next + i, ch); }
        size_t did = out->writeN(tmp, k); Quiet z; next += did; if (did) progress();
        if (did) return Empty{};
        return Error::NotEnoughSpace;
    }
};
static cler::FlowGraphConfig graph_config() { auto c = random_fg_config(); if (c.adaptive_sleep || C(2)) { c.adaptive_sleep = true; c.adaptive_sleep_max_us = 30; c.adaptive_sleep_fail_threshold = 2; } return c; }
// runs the graph until done(); ends of a run by a fatal error and stops in between are followed by another run
template <class D, class... R> static void drive(D done, unsigned stops, std::function<void()> stopped, R... r) {
    auto cfg = graph_config(); auto fg = cler::make_desktop_flowgraph(r...);
    for (unsigned runs = 0;; runs++) {
        unsigned e0; { Quiet z; e0 = d.errs; }
        fg.run(cfg);
        auto over = [&] { return done() || d.errs != e0; };
        if (stops) { stops--; until(over, 1000 + (uint64_t)Wk(200000)); } else until(over);
        fg.stop(); { Quiet z; progress(); if (stopped) stopped(); if (runs > 40) { sim::set_rate(sim::F_DEV_ERR, 0); } }
        bool e; { Quiet z; e = done(); } if (e) break;
    }
}
static std::string rates(bool err, bool flow, bool timeout) {
    std::string s; auto on = [&](sim::Fault f, unsigned r, const char* n) { bool y = sim::cfg(2); sim::set_rate(f, y ? r : 0); if (y) s += std::string(s.empty() ? "" : ", ") + n; };
    if (err) on(sim::F_DEV_ERR, 12, "errors"); if (flow) on(sim::F_DEV_OVERFLOW, 60, "over/underflows"); if (timeout) on(sim::F_DEV_TIMEOUT, 100, "timeouts");
    on(sim::F_DEV_SHORT, 100, "short transfers"); on(sim::F_DEV_STALL, 20, "stalls");
    if (sim::cfg(6) == 0) sim::set_rate(sim::F_STALL, 2);
    d.slow = sim::cfg(4) == 0; static const size_t m[5] = {512, 1, 64, 1000, 4096}; d.mtu = m[sim::cfg(5)]; if (d.mtu == 1) d.mtu = 7;
    return s.empty() ? "no faults" : s;
}
// constructs a block; failed set-ups must clean up after themselves
template <class B, class F> static std::unique_ptr<B> make_block(F f, bool must_report = true) {
    bool faulty; { Quiet z; faulty = sim::cfg(2); sim::set_rate(sim::F_DEV_ERR, faulty ? 90 : 0); d.setting_up = true; progress(); }
    for (int tries = 0;; tries++) {
        int f0; { Quiet z; if (tries == 3) sim::set_rate(sim::F_DEV_ERR, 0); f0 = d.setup_faults; }
        std::unique_ptr<B> b; bool threw = false;
        try { b = f(); } catch (const std::exception&) { threw = true; }
        Quiet z; bool faulted = d.setup_faults != f0;
        if (threw && !faulted) sim::fail("false-error", "construction failed although every driver call succeeded");
        if (!threw && faulted && must_report) sim::fail("swallowed-error", "a driver call failed and construction succeeded");
        if (threw && d.inits) sim::fail("device-leak", "construction failed and left the driver library initialised");
        if (threw && (d.open || d.streams || d.active)) sim::fail("device-leak", "construction failed and left %d devices open, %d streams set up, %d active", d.open, d.streams, d.active);
        if (threw) { sim::probe("failed constructions"); continue; }
        sim::set_rate(sim::F_DEV_ERR, 0); d.setting_up = false; return b;
    }
}
static void closed() { Quiet z; if (d.open || d.streams || d.active) sim::fail("device-leak", "after destruction %d devices are open, %d streams set up, %d active", d.open, d.streams, d.active); if (d.inits) sim::fail("device-leak", "the driver library is initialised and was not released"); if (d.opened != d.closed) sim::fail("device-leak", "%d devices were opened, %d closed", d.opened, d.closed); }
static size_t pick_buf(size_t el) { static const size_t k[5] = {0, 4096, 8192, 12288, 65536}; return k[C(5)] / el; }
static size_t out_cap(size_t el) { static const size_t k[4] = {8192, 4096, 32768, 12288}; return k[C(4)] / el; }

// ---------------------------------------------------------------- HackRF receiver
struct RxLog { std::vector<std::pair<uint64_t, uint64_t>> tr; uint64_t settled = 0, transfers = 0; unsigned biggest; bool done = false; };
static RxLog* rx;
static void rx_driver(hackrf_device* h) {
    for (uint64_t i = 0; i < rx->transfers; i++) {
        pause_(); if (h->quit) return;
        bool burst; { Quiet z; burst = sim::work(8) == 1; }
        if (burst) { uint64_t ns; { Quiet z; ns = 10000 + sim::work(100000); } std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); if (h->quit) return; }
        hackrf_transfer t{}; unsigned n, room; std::unique_ptr<uint8_t[]> buf;
        { Quiet z; n = 1 + sim::work(rx->biggest); room = sim::work(8) == 1 ? n + 1 + sim::work(64) : n; }   // a short transfer leaves the rest of its buffer as it was
        buf.reset(new uint8_t[2 * room]);
        { Quiet z; for (unsigned k = 0; k < n; k++) { uint64_t v = d.delivered + k; buf[2 * k] = (uint8_t)v; buf[2 * k + 1] = (uint8_t)(v >> 8); }
          t.device = h; t.buffer = buf.get(); t.buffer_length = (int)(2 * room); t.valid_length = (int)(2 * n); t.rx_ctx = h->ctx; if (room > n) memset(buf.get() + 2 * n, 0x7a, 2 * (room - n)); rx->tr.push_back({n, rx->settled}); }
        if (h->cb(&t)) { Quiet z; sim::note("the callback ends the stream"); return; }
        Quiet z; d.delivered += n; progress();
    }
    { Quiet z; rx->done = true; }
    until([h] { return h->quit.load(); });
}
static void s_hackrf_rx() {
    typedef std::complex<float> T; static RxLog log; size_t buf; std::string fs; unsigned stops;
    { Quiet z; rx = &log; sim::set_weak(false); hack_driver = rx_driver; d = Dev(); fs = rates(false, false, false); buf = pick_buf(8); static const unsigned bg[3] = {100, 700, 20}; log.biggest = bg[sim::cfg(3)]; log.transfers = 3 + sim::work(log.biggest == 700 ? 25 : 100); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    bool ctl = C(2); size_t oc = out_cap(8); unsigned lazy = C(2) ? 0 : 3 + C(3);
    { Quiet z; sim::sample("HackRF receiver: %llu transfers of up to %u samples, ring %zu, output %zu%s%s, %u stops", (unsigned long long)log.transfers, log.biggest, buf ? buf : 512, oc, lazy ? ", lazy reader" : "", ctl ? ", control calls" : "", stops); }
    Collect<T> c(oc, lazy); uint64_t last = 0; std::vector<bool> seen; { Quiet z; seen.assign(log.transfers * log.biggest + 1, false); }
    c.see = [&](const T& v) {
        unsigned lo = (unsigned)(int)(v.real() * 128.f) & 255, hi = (unsigned)(int)(v.imag() * 128.f) & 255; uint64_t id = lo | hi << 8;
        if ((float)(int8_t)lo / 128.f != v.real() || (float)(int8_t)hi / 128.f != v.imag()) sim::fail("wrong-sample", "output number %llu is no sample of the device", (unsigned long long)c.got);
        if (c.got && id <= last) sim::fail("order", "sample %llu follows sample %llu", (unsigned long long)id, (unsigned long long)last);
        if (id >= seen.size()) sim::fail("wrong-sample", "sample %llu was never received", (unsigned long long)id);
        seen[last = id] = true;
    };
    std::unique_ptr<SourceHackRFBlock> b = make_block<SourceHackRFBlock>([&] { auto r = std::make_unique<SourceHackRFBlock>("hackrf", 100000000ull, 2000000u, 16, 20, false, buf); return r; });
    uint64_t pushed = 0; c.in.pushed = [&](const T*, size_t k) { pushed += k; };
    Wrap<SourceHackRFBlock> w(*b, true); w.after = [&] { log.settled = pushed; };
    std::atomic<bool> quit{false}; std::thread control;
    if (ctl) control = std::thread([&] { while (!quit) { pause_(); uint64_t f = 100000000ull + Wk(1000); b->set_frequency(f); if ((double)b->get_frequency() != d.freq) sim::fail("wrong-result", "the block says %llu Hz, the device is at %.0f Hz", (unsigned long long)b->get_frequency(), d.freq); b->set_lna_gain(8); b->set_vga_gain(2); b->set_amp_enable(true); (void)b->get_overflow_count(); } });
    drive([&] { return log.done && c.got + b->get_overflow_count() >= d.delivered; }, stops, nullptr, BlockRunner(&w, (ChannelBase<T>*)&c.in), BlockRunner(&c));
    quit = true; if (control.joinable()) control.join();
    uint64_t lost = b->get_overflow_count();
    { Quiet z; if (c.got + lost != d.delivered) sim::fail("lost-sample", "the device delivered %llu samples, %llu were handed on and %llu counted as overflow", (unsigned long long)d.delivered, (unsigned long long)c.got, (unsigned long long)lost);
      uint64_t k = 0, acc = 0, cap = buf ? buf : cler::DOUBLY_MAPPED_MIN_SIZE / 8;
      for (auto& t : log.tr) for (uint64_t i = 0; i < t.first; i++, k++) { if (seen[k]) { acc++; continue; } if (acc - t.second < cap) sim::fail("needless-drop", "sample %llu is dropped with %llu of %llu buffered", (unsigned long long)k, (unsigned long long)(acc - t.second), (unsigned long long)cap); }
      sim::probe("dropped samples", lost); if (log.tr.size() > 2) sim::nontrivial(); }
    b.reset(); closed();
}
// ---------------------------------------------------------------- HackRF transmitter
struct TxLog { uint64_t pushed = 0, silent = 0, callbacks = 0; SinkHackRFBlock* sink = nullptr; Produce<std::complex<float>>* p = nullptr; unsigned biggest = 0; uint64_t n = 0; };
static TxLog* txl;
static int tx_digit(uint64_t k, int part) { return part ? (int)((k / 60) % 60) : (int)(k % 60); }
static void tx_driver(hackrf_device* h) {
    for (;;) {
        pause_(); if (h->quit) return;
        hackrf_transfer t{}; unsigned n; { Quiet z; n = 1 + sim::work(txl->biggest); }
        std::unique_ptr<uint8_t[]> buf(new uint8_t[2 * n]); uint64_t have;
        { Quiet z; memset(buf.get(), 0x55, 2 * n); t.device = h; t.buffer = buf.get(); t.buffer_length = t.valid_length = (int)(2 * n); t.tx_ctx = h->ctx; have = (txl->p ? txl->p->next : 0) - d.taken; }
        if (h->cb(&t)) return;
        Quiet z; unsigned fill = 0; txl->callbacks++;
        while (fill < n && (buf[2 * fill] || buf[2 * fill + 1])) {
            for (int part = 0; part < 2; part++) { int dg = ((int)(int8_t)buf[2 * fill + part] + 120) / 4; if (dg != tx_digit(d.taken, part)) sim::fail("wrong-sample", "the transmitter is given a sample that is not number %llu of the stream", (unsigned long long)d.taken); }
            d.taken++; fill++;
        }
        for (unsigned i = fill; i < n; i++) if (buf[2 * i] || buf[2 * i + 1]) sim::fail("silence-inside", "a transfer has silence before samples");
        if (d.taken > txl->n) sim::fail("wrong-sample", "more samples are transmitted than there are");
        if (fill < std::min<uint64_t>(have, n)) sim::fail("needless-silence", "%u of %u samples of a transfer are sent, %llu were waiting", fill, n, (unsigned long long)have);
        if (fill < n) txl->silent++;
        if (txl->sink && txl->sink->get_underrun_count() != txl->silent) sim::fail("wrong-count", "%llu transfers were not full, the block counted %zu", (unsigned long long)txl->silent, txl->sink->get_underrun_count());
        if (fill) progress();
    }
}
static void s_hackrf_tx() {
    typedef std::complex<float> T; static TxLog log; size_t buf; unsigned stops;
    { Quiet z; txl = &log; sim::set_weak(false); hack_driver = tx_driver; d = Dev(); rates(false, false, false); buf = pick_buf(8); static const unsigned bg[3] = {100, 700, 20}; log.biggest = bg[sim::cfg(3)]; log.n = 50 + sim::work(2500); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    Produce<T> p(log.n, 0, C(2) ? 0 : 2 + C(4)); { Quiet z; p.make = [](uint64_t k) { return T((float)(4 * tx_digit(k, 0) - 118) / 127.f, (float)(4 * tx_digit(k, 1) - 118) / 127.f); }; }
    { Quiet z; sim::sample("HackRF transmitter: %llu samples, transfers of up to %u, ring %zu%s, %u stops", (unsigned long long)log.n, log.biggest, buf ? buf : 512, p.lazy ? ", lazy producer" : "", stops); }
    auto b = make_block<SinkHackRFBlock>([&] { { Quiet z; log.silent = 0; } auto r = std::make_unique<SinkHackRFBlock>("hackrf", 100000000ull, 2000000u, 20, false, buf); return r; });
    { Quiet z; log.sink = b.get(); log.p = &p; }
    Wrap<SinkHackRFBlock> w(*b, true);
    drive([&] { return d.taken == log.n; }, stops, nullptr, BlockRunner(&p, (ChannelBase<T>*)&b->in), BlockRunner(&w));
    { Quiet z; log.sink = nullptr; if (log.callbacks > 2) sim::nontrivial(); sim::probe("transfers with silence", log.silent); }
    b.reset(); closed();
}

// ---------------------------------------------------------------- SoapySDR
namespace SoapySDR {
struct Stream { std::string fmt; int dir; bool on = false; };
static Device* sdev; static Stream* sstr;
static void live(const Device* p) { if (!p || p != sdev) misuse("a SoapySDR call on a device that is not open"); }
static void slive(const Device* p, Stream* s) { live(p); if (!s || s != sstr) misuse("a SoapySDR call on a stream that is not set up"); }
static void setter(const Device* p) { live(p); if (d.setting_up && setup_fault()) throw std::runtime_error("driver"); }
const char* errToStr(int) { return "status"; } std::string KwargsToString(const Kwargs&) { return ""; } KwargsList Device::enumerate() { return {}; }
Device* Device::make(const std::string&) { if (setup_fault()) { if (pick(sim::F_DEV_ERR, 2)) throw std::runtime_error("no such device"); return nullptr; } if (sdev) misuse("the SoapySDR device is made twice"); Quiet z; sdev = new Device; d.open++; d.opened++; return sdev; }
void Device::unmake(Device* p) { live(p); if (sstr) misuse("the SoapySDR device is unmade with a stream set up"); Quiet z; sdev = nullptr; delete p; d.open--; d.closed++; }
std::string Device::getDriverKey() const { live(this); return "sim"; } std::string Device::getHardwareKey() const { live(this); return "sim"; }
std::vector<std::string> Device::listAntennas(int, size_t) const { live(this); return {"A", "B"}; } void Device::setAntenna(int, size_t, const std::string&) { setter(this); } std::string Device::getAntenna(int, size_t) const { live(this); return "A"; }
bool Device::hasDCOffsetMode(int, size_t) const { live(this); return true; } void Device::setDCOffsetMode(int, size_t, bool) { setter(this); } bool Device::hasDCOffset(int, size_t) const { live(this); return true; } void Device::setDCOffset(int, size_t, const std::complex<double>&) { setter(this); } bool Device::hasIQBalance(int, size_t) const { return true; } void Device::setIQBalance(int, size_t, const std::complex<double>&) { setter(this); }
std::vector<std::string> Device::listGains(int, size_t) const { live(this); return {"g"}; } bool Device::hasGainMode(int, size_t) const { live(this); return true; } void Device::setGainMode(int, size_t, bool) { setter(this); } void Device::setGain(int, size_t, double) { setter(this); }
Range Device::getGainRange(int, size_t) const { live(this); if (d.setting_up && setup_fault()) return {90, 95}; return {0, 60}; } Range Device::getGainRange(int, size_t, const std::string&) const { live(this); return {0, 60}; }
void Device::setFrequency(int, size_t, double f, const Kwargs&) { setter(this); Quiet z; d.freq = f; } RangeList Device::getFrequencyRange(int, size_t) const { live(this); if (d.setting_up && setup_fault()) return {{1, 2}}; return {{1, 2}, {1e6, 6e9}}; }
void Device::setSampleRate(int, size_t, double) { setter(this); } RangeList Device::getSampleRateRange(int, size_t) const { live(this); if (d.setting_up && setup_fault()) return {}; return {{1e5, 1e7}}; }
void Device::setBandwidth(int, size_t, double) { setter(this); } double Device::getBandwidth(int, size_t) const { return 1e6; } RangeList Device::getBandwidthRange(int, size_t) const { live(this); return {{1e5, 1e7}}; }
Stream* Device::setupStream(int dir_, const std::string& f, const std::vector<size_t>& ch, const Kwargs&) { live(this); if (setup_fault()) { if (pick(sim::F_DEV_ERR, 2)) throw std::runtime_error("driver"); return nullptr; } if (sstr) misuse("a second stream is set up"); if (ch.size() != 1) misuse("the stream has not one channel"); Quiet z; sstr = new Stream{f, dir_}; d.streams++; return sstr; }
void Device::closeStream(Stream* s) { slive(this, s); Quiet z; if (s->on) d.active--; d.streams--; sstr = nullptr; delete s; }
size_t Device::getStreamMTU(Stream* s) const { slive(this, s); return d.mtu; }
int Device::activateStream(Stream* s, int, long long, size_t) { slive(this, s); if (setup_fault()) return SOAPY_SDR_STREAM_ERROR; Quiet z; if (!s->on) d.active++; s->on = true; return 0; }
int Device::deactivateStream(Stream* s, int, long long) { slive(this, s); Quiet z; if (s->on) d.active--; s->on = false; return 0; }
static int err_code(bool rx) { static const int r[4] = {SOAPY_SDR_STREAM_ERROR, SOAPY_SDR_CORRUPTION, SOAPY_SDR_NOT_SUPPORTED, SOAPY_SDR_TIME_ERROR}; unsigned p = pick(sim::F_DEV_ERR, 5); return p == 4 ? (rx ? SOAPY_SDR_UNDERFLOW : SOAPY_SDR_OVERFLOW) : r[p]; }
int Device::readStream(Stream* s, void* const* b, size_t n, int&, long long&, long) {
    slive(this, s); if (!s->on || s->dir != SOAPY_SDR_RX) misuse("read from a stream that is not receiving"); int k = status(n);
    if (k == S_ERR) return err_code(true); if (k == S_FLOW) return SOAPY_SDR_OVERFLOW; if (k == S_TIMEOUT) return SOAPY_SDR_TIMEOUT;
    by_format(s->fmt, b[0], nullptr, n, (size_t)k, 0); if (Wk(3) == 1) pause_(); Quiet z; d.delivered += (unsigned)k; return k;
}
int Device::writeStream(Stream* s, const void* const* b, size_t n, int&, long long, long) {
    slive(this, s); if (!s->on || s->dir != SOAPY_SDR_TX) misuse("write to a stream that is not transmitting"); int k = status(n);
    by_format(s->fmt, nullptr, b[0], n, 0, 0);
    if (k == S_ERR) return err_code(false); if (k == S_TIMEOUT) return SOAPY_SDR_TIMEOUT;
    if (Wk(3) == 1) pause_();
    Quiet z; if (k == S_FLOW) { d.taken += n; return SOAPY_SDR_UNDERFLOW; }     // took them, late
    d.taken += (unsigned)k; return k;
}
}
template <class T> static void soapy_rx() {
    std::string fs; unsigned stops; uint64_t n;
    { Quiet z; d = Dev(); }
    typedef SourceSoapySDRBlock<T> B; unsigned lazy = C(2) ? 0 : 3 + C(3); Collect<T> c(out_cap(sizeof(T)), lazy);
    { Quiet z; static const size_t m[4] = {512, 7, 64, 3000}; d.mtu = m[sim::cfg(4)]; n = 500 + sim::work(d.mtu < 64 ? 1500 : 6000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    size_t mtu = d.mtu; auto b = make_block<B>([&] { return std::make_unique<B>("soapy", "", 1e8, 2e6, 20.0, 0); });
    { Quiet z; fs = rates(true, true, true); d.mtu = mtu; sim::sample("SoapySDR receiver, %zu-byte samples: %llu samples, MTU %zu, %s%s, %u stops", sizeof(T), (unsigned long long)n, mtu, fs.c_str(), lazy ? ", lazy reader" : "", stops); }
    uint64_t pushed = 0; c.in.pushed = [&](const T*, size_t k) { pushed += k; };
    Wrap<B> w(*b, true); w.after = [&] { if (pushed != d.delivered) sim::fail("lost-sample", "the driver delivered %llu samples, %llu were handed on", (unsigned long long)d.delivered, (unsigned long long)pushed); };
    bool ctl = C(2); std::atomic<bool> quit{false}; std::thread control;
    if (ctl) control = std::thread([&] { while (!quit) { pause_(); double f = 1e8 + Wk(1000); b->set_frequency(f); if (b->get_frequency() != d.freq) sim::fail("wrong-result", "wrong frequency"); b->set_gain(3); b->set_antenna("B"); b->set_agc_mode(false); } });
    drive([&] { return c.got >= n; }, stops, nullptr, BlockRunner(&w, (ChannelBase<T>*)&c.in), BlockRunner(&c));
    quit = true; if (control.joinable()) control.join();
    { Quiet z; if (d.calls > 2) sim::nontrivial(); }
    b.reset(); closed();
}
template <class T> static void soapy_tx() {
    std::string fs; unsigned stops; uint64_t n;
    { Quiet z; d = Dev(); }
    typedef SinkSoapySDRBlock<T> B; Produce<T> p(0, 0, C(2) ? 0 : 2 + C(4)); size_t buf = pick_buf(sizeof(T));
    { Quiet z; static const size_t m[4] = {512, 7, 64, 3000}; d.mtu = m[sim::cfg(4)]; p.n = n = 500 + sim::work(d.mtu < 64 ? 1500 : 6000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    size_t mtu = d.mtu; auto b = make_block<B>([&] { return std::make_unique<B>("soapy", "", 1e8, 2e6, 20.0, 0, buf); });
    { Quiet z; fs = rates(true, true, true); d.mtu = mtu; sim::sample("SoapySDR transmitter, %zu-byte samples: %llu samples, MTU %zu, ring %zu, %s%s, %u stops", sizeof(T), (unsigned long long)n, mtu, buf, fs.c_str(), p.lazy ? ", lazy producer" : "", stops); }
    Wrap<B> w(*b, true); bool ctl = C(2); std::atomic<bool> quit{false}; std::thread control;
    if (ctl) control = std::thread([&] { while (!quit) { pause_(); b->set_frequency(1e8 + Wk(1000)); b->set_gain(3); b->set_antenna("B"); } });
    drive([&] { return d.taken >= n; }, stops, [&] { if (p.next - d.taken != b->in.size()) sim::fail("lost-sample", "%llu samples went in, the driver took %llu, %zu wait", (unsigned long long)p.next, (unsigned long long)d.taken, b->in.size()); }, BlockRunner(&p, (ChannelBase<T>*)&b->in), BlockRunner(&w));
    quit = true; if (control.joinable()) control.join();
    { Quiet z; if (d.calls > 2) sim::nontrivial(); }
    b.reset(); closed();
}
static void s_soapy_rx() { switch (C(4)) { case 0: soapy_rx<std::complex<float>>(); break; case 1: soapy_rx<std::complex<int16_t>>(); break; case 2: soapy_rx<int16_t>(); break; default: soapy_rx<std::complex<int8_t>>(); } }
static void s_soapy_tx() { switch (C(4)) { case 0: soapy_tx<std::complex<float>>(); break; case 1: soapy_tx<std::complex<int16_t>>(); break; case 2: soapy_tx<float>(); break; default: soapy_tx<std::complex<int8_t>>(); } }

// ---------------------------------------------------------------- CaribouLite
static CaribouLiteRadio the_radio; static CaribouLite the_caribou;
bool CaribouLite::DetectBoard(SysVersion*, std::string&, std::string&) { return !setup_fault(); } std::string CaribouLite::GetSystemVersionStr(SysVersion) { return "sim"; } CaribouLite& CaribouLite::GetInstance(bool) { return the_caribou; }
CaribouLiteRadio* CaribouLite::GetRadioChannel(CaribouLiteRadio::RadioType) { return setup_fault() ? nullptr : &the_radio; }
std::vector<CaribouLiteFreqRange> CaribouLiteRadio::GetFrequencyRange() { if (setup_fault()) return {{1, 2}}; return {{1, 2}, {7e8f, 1e9f}}; } float CaribouLiteRadio::GetRxSampleRateMax() { return 4e6f; } float CaribouLiteRadio::GetRxSampleRateMin() { return setup_fault() ? 3.9e6f : 1e5f; } size_t CaribouLiteRadio::GetNativeMtuSample() { return d.mtu; }
void CaribouLiteRadio::SetFrequency(float) { if (setup_fault()) throw std::runtime_error("driver"); } void CaribouLiteRadio::SetRxSampleRate(float) {} void CaribouLiteRadio::SetAgc(bool) {} void CaribouLiteRadio::SetRxGain(float) {}
void CaribouLiteRadio::StartReceiving() { if (d.active) misuse("receiving is started twice"); Quiet z; d.active++; } void CaribouLiteRadio::StopReceiving() { if (!d.active) misuse("receiving is stopped twice"); Quiet z; d.active--; }
template <class T> static int caribou_read(T* p, size_t n) { if (!d.active) misuse("read from a radio that is not receiving"); int k = status(n); if (k == S_ERR) return -1 - (int)pick(sim::F_DEV_ERR, 3); if (k < 0) return 0; deliver<T>(p, n, (size_t)k, 0); if (Wk(3) == 1) pause_(); Quiet z; d.delivered += (unsigned)k; return k; }
int CaribouLiteRadio::ReadSamples(std::complex<float>* p, size_t n) { return caribou_read(p, n); } int CaribouLiteRadio::ReadSamples(std::complex<short>* p, size_t n) { return caribou_read(p, n); }
template <class T> static void caribou() {
    std::string fs; uint64_t n; unsigned stops; { Quiet z; d = Dev(); }
    typedef SourceCaribouliteBlock<T> B; unsigned lazy = C(2) ? 0 : 3 + C(3); Collect<T> c(out_cap(sizeof(T)), lazy);
    { Quiet z; static const size_t m[4] = {512, 7, 64, 3000}; d.mtu = m[sim::cfg(4)]; n = 500 + sim::work(d.mtu < 64 ? 1500 : 6000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    size_t mtu = d.mtu; auto b = make_block<B>([&] { return std::make_unique<B>("caribou", CaribouLiteRadio::S1G, 9e8f, 2e6f, false, 10.f); });
    { Quiet z; fs = rates(true, false, true); d.mtu = mtu; sim::sample("CaribouLite receiver, %zu-byte samples: %llu samples, MTU %zu, %s%s, %u stops", sizeof(T), (unsigned long long)n, mtu, fs.c_str(), lazy ? ", lazy reader" : "", stops); }
    uint64_t pushed = 0; c.in.pushed = [&](const T*, size_t k) { pushed += k; };
    Wrap<B> w(*b, false); w.after = [&] { if (pushed != d.delivered) sim::fail("lost-sample", "the driver delivered %llu samples, %llu were handed on", (unsigned long long)d.delivered, (unsigned long long)pushed); };
    drive([&] { return c.got >= n; }, stops, nullptr, BlockRunner(&w, (ChannelBase<T>*)&c.in), BlockRunner(&c));
    { Quiet z; if (d.calls > 2) sim::nontrivial(); }
    b.reset(); closed();
}
static void s_caribou() { if (C(2)) caribou<std::complex<short>>(); else caribou<std::complex<float>>(); }

// ---------------------------------------------------------------- PortAudio
static int pa_stream; static bool pa_open, pa_started, pa_init;
static void pa_live(void* s) { if (s != &pa_stream || !pa_open) misuse("a PortAudio call on a stream that is not open"); }
static const PaDeviceInfo pa_info = {2, "sim", 2, 0.01};
extern "C" {
PaError Pa_Initialize() { if (setup_fault()) return paUnanticipatedHostError; Quiet z; pa_init = true; d.inits++; return paNoError; } PaError Pa_Terminate() { Quiet z; if (d.inits-- <= 0) misuse("Pa_Terminate() without Pa_Initialize()"); if (!d.inits) { if (pa_open) misuse("Pa_Terminate() with the stream open"); pa_init = false; } return paNoError; } const char* Pa_GetErrorText(PaError) { return "error"; } PaDeviceIndex Pa_GetDeviceCount() { if (setup_fault()) return paNotInitialized; return 3; } PaDeviceIndex Pa_GetDefaultOutputDevice() { return setup_fault() ? paNoDevice : 1; }
const PaDeviceInfo* Pa_GetDeviceInfo(PaDeviceIndex i) { return i >= 0 && i < 3 ? &pa_info : nullptr; }
PaError Pa_OpenStream(PaStream** s, const PaStreamParameters* in, const PaStreamParameters* out, double, unsigned long, unsigned long, void* cb, void*) { if (!pa_init) misuse("PortAudio is not initialised"); if (setup_fault()) return paDeviceUnavailable; if (pa_open) misuse("the stream is opened twice"); if (in || cb || !out || out->channelCount != 1 || out->sampleFormat != paFloat32) misuse("the audio stream is not one blocking float32 output channel"); *s = &pa_stream; Quiet z; pa_open = true; d.open++; d.opened++; return paNoError; }
PaError Pa_StartStream(PaStream* s) { pa_live(s); if (setup_fault()) return paUnanticipatedHostError; Quiet z; if (!pa_started) d.active++; pa_started = true; return paNoError; }
PaError Pa_StopStream(PaStream* s) { pa_live(s); { Quiet z; if (pa_started) d.active--; pa_started = false; } return flt(sim::F_DEV_ERR) ? paUnanticipatedHostError : paNoError; } PaError Pa_AbortStream(PaStream* s) { return Pa_StopStream(s); }
PaError Pa_CloseStream(PaStream* s) { pa_live(s); { Quiet z; if (pa_started) d.active--; pa_started = false; pa_open = false; d.open--; d.closed++; } return flt(sim::F_DEV_ERR) ? paUnanticipatedHostError : paNoError; }
signed long Pa_GetStreamWriteAvailable(PaStream* s) { pa_live(s); return 64; }
PaError Pa_WriteStream(PaStream* s, const void* p, unsigned long n) {
    pa_live(s); if (!pa_started) misuse("write to a stream that is not running"); { Quiet z; d.calls++; }
    accept<float>(p, n, n, 0);
    if (flt(sim::F_DEV_ERR)) { Quiet z; d.errs++; return paUnanticipatedHostError; }
    bool uf = flt(sim::F_DEV_OVERFLOW); if (uf || Wk(2)) pause_();
    Quiet z; d.taken += n; if (uf) d.underflows++; return uf ? paOutputUnderflowed : paNoError;
}
}
static void s_audio() {
    std::string fs; uint64_t n; unsigned stops; { Quiet z; d = Dev(); }
    typedef SinkAudioBlock B; Produce<float> p(0, 0, C(2) ? 0 : 2 + C(4)); size_t buf = pick_buf(4); int dev = C(2) ? 2 : -1;
    { Quiet z; p.n = n = 500 + sim::work(8000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    auto b = make_block<B>([&] { return std::make_unique<B>("audio", 48000.0, dev, buf); });
    { Quiet z; fs = rates(true, true, false); sim::sample("audio sink: %llu samples, ring %zu, %s%s, %u stops", (unsigned long long)n, buf, fs.c_str(), p.lazy ? ", lazy producer" : "", stops); }
    Wrap<B> w(*b, true);
    drive([&] { return d.taken >= n; }, stops, [&] { if (p.next - d.taken != b->in.size()) sim::fail("lost-sample", "%llu samples went in, the driver took %llu, %zu wait", (unsigned long long)p.next, (unsigned long long)d.taken, b->in.size()); }, BlockRunner(&p, (ChannelBase<float>*)&b->in), BlockRunner(&w));
    { Quiet z; if (d.calls > 2) sim::nontrivial(); }
    b.reset(); closed();
}

// ---------------------------------------------------------------- UHD
static uint64_t uhd_async_underflows; static std::deque<unsigned> uhd_async;
namespace uhd {
bool set_thread_priority_safe(float, bool) { return true; }
std::string rx_metadata_t::strerror() const { return "error"; }
rx_streamer::~rx_streamer() { Quiet z; d.streams--; if (on) d.active--; } tx_streamer::~tx_streamer() { Quiet z; d.streams--; }
size_t rx_streamer::get_max_num_samps() const { return d.mtu; } size_t tx_streamer::get_max_num_samps() const { return d.mtu; }
void rx_streamer::issue_stream_cmd(const stream_cmd_t& c) { if (d.setting_up && setup_fault()) throw std::runtime_error("driver"); Quiet z; bool o = c.mode == stream_cmd_t::STREAM_MODE_START_CONTINUOUS; d.active += (int)o - (int)on; on = o; }
size_t rx_streamer::recv(const buffs_type& b, size_t n, rx_metadata_t& md, double, bool) {
    if (!on) misuse("receive from a streamer that is not streaming"); if (b.size() != nch) sim::fail("device-misuse", "%zu buffers for a streamer of %zu channels", b.size(), nch);
    md = rx_metadata_t(); int k = status(n); static const rx_metadata_t::error_code_t ec[4] = {rx_metadata_t::ERROR_CODE_BROKEN_CHAIN, rx_metadata_t::ERROR_CODE_LATE_COMMAND, rx_metadata_t::ERROR_CODE_ALIGNMENT, rx_metadata_t::ERROR_CODE_BAD_PACKET};
    if (k == S_ERR) { md.error_code = ec[pick(sim::F_DEV_ERR, 4)]; return 0; } if (k == S_FLOW) md.error_code = rx_metadata_t::ERROR_CODE_OVERFLOW; if (k == S_TIMEOUT) md.error_code = rx_metadata_t::ERROR_CODE_TIMEOUT;
    if (k < 0) { Quiet z; k = 0; if (n > 1 && sim::work(4) == 1) { k = 1 + (int)sim::work((uint32_t)std::min(n, d.mtu) - 1); sim::probe("samples before an overflow or timeout", (uint64_t)k); } if (!k) return 0; }
    for (size_t c = 0; c < nch; c++) by_format(fmt, b[c], nullptr, n, (size_t)k, (unsigned)c);
    if (Wk(3) == 1) pause_(); Quiet z; d.delivered += (unsigned)k; return (size_t)k;
}
size_t tx_streamer::send(const buffs_type& b, size_t n, const tx_metadata_t&, double) {
    if (b.size() != nch) sim::fail("device-misuse", "%zu buffers for a streamer of %zu channels", b.size(), nch);
    int k = status(n); for (size_t c = 0; c < nch; c++) by_format(fmt, nullptr, b[c], n, 0, (unsigned)c);
    if (k < 0) return 0; if (Wk(3) == 1) pause_(); Quiet z; d.taken += (unsigned)k; return (size_t)k;
}
bool tx_streamer::recv_async_msg(async_metadata_t& m, double) {
    Quiet z; if (uhd_async.empty()) { if (!sim::fault(sim::F_DEV_OVERFLOW)) return false; for (unsigned left = 1 + sim::fault_pick(sim::F_DEV_OVERFLOW, 3); left; left--) { unsigned p = sim::fault_pick(sim::F_DEV_OVERFLOW, 6); uhd_async.push_back(p); if (p < 2) uhd_async_underflows++; } }
    static const async_metadata_t::event_code_t ev[6] = {async_metadata_t::EVENT_CODE_UNDERFLOW, async_metadata_t::EVENT_CODE_UNDERFLOW_IN_PACKET, async_metadata_t::EVENT_CODE_BURST_ACK, async_metadata_t::EVENT_CODE_TIME_ERROR, async_metadata_t::EVENT_CODE_SEQ_ERROR, async_metadata_t::EVENT_CODE_USER_PAYLOAD};
    m.event_code = ev[uhd_async.front()]; uhd_async.pop_front(); return true;
}
namespace usrp {
static void setter(bool always) { if ((d.setting_up && setup_fault()) || (always && flt(sim::F_SOFT_ERR))) throw std::runtime_error("driver"); }
multi_usrp::multi_usrp() { d.open++; d.opened++; } multi_usrp::~multi_usrp() { Quiet z; d.open--; d.closed++; }
multi_usrp::sptr multi_usrp::make(const std::string&) { if (setup_fault()) { if (pick(sim::F_DEV_ERR, 2)) throw std::runtime_error("no device"); return nullptr; } if (d.open) misuse("the USRP is made twice"); return std::make_shared<multi_usrp>(); }
std::string multi_usrp::get_mboard_name(size_t) { return "sim"; } std::string multi_usrp::get_pp_string() { return "sim"; } size_t multi_usrp::get_rx_num_channels() { return d.setting_up && setup_fault() ? 0 : 4; } size_t multi_usrp::get_tx_num_channels() { return 4; }
static bool in_ctl; // set while the control thread configures: driver calls may fail then
void multi_usrp::set_rx_rate(double, size_t) { setter(false); } double multi_usrp::get_rx_rate(size_t) { return 2e6; } tune_result_t multi_usrp::set_rx_freq(const tune_request_t&, size_t) { setter(in_ctl); return {}; } freq_range_t multi_usrp::get_rx_freq_range(size_t) { return {1e6, 6e9}; } void multi_usrp::set_rx_gain(double, size_t) { setter(in_ctl); } gain_range_t multi_usrp::get_rx_gain_range(size_t) { return {0, 60}; } void multi_usrp::set_rx_bandwidth(double, size_t) { setter(false); }
void multi_usrp::set_tx_rate(double, size_t) { setter(false); } double multi_usrp::get_tx_rate(size_t) { return 2e6; } tune_result_t multi_usrp::set_tx_freq(const tune_request_t&, size_t) { setter(in_ctl); return {}; } freq_range_t multi_usrp::get_tx_freq_range(size_t) { return {1e6, 6e9}; } void multi_usrp::set_tx_gain(double, size_t) { setter(in_ctl); } gain_range_t multi_usrp::get_tx_gain_range(size_t) { return {0, 60}; } void multi_usrp::set_tx_bandwidth(double, size_t) { setter(false); }
static void want(const stream_args_t& a) { if (a.channels.size() != d.nch) sim::fail("device-misuse", "a streamer of %zu channels for a block of %zu", a.channels.size(), d.nch); for (size_t i = 0; i < a.channels.size(); i++) if (a.channels[i] != i) misuse("wrong channel numbers"); }
rx_streamer::sptr multi_usrp::get_rx_stream(const stream_args_t& a) { if (setup_fault()) { if (pick(sim::F_DEV_ERR, 2)) throw std::runtime_error("driver"); return nullptr; } want(a); Quiet z; d.streams++; auto s = std::make_shared<rx_streamer>(); s->nch = a.channels.size(); s->fmt = a.cpu_format; return s; }
tx_streamer::sptr multi_usrp::get_tx_stream(const stream_args_t& a) { if (setup_fault()) { if (pick(sim::F_DEV_ERR, 2)) throw std::runtime_error("driver"); return nullptr; } want(a); Quiet z; d.streams++; auto s = std::make_shared<tx_streamer>(); s->nch = a.channels.size(); s->fmt = a.cpu_format; return s; }
time_spec_t multi_usrp::get_time_last_pps(size_t) { return time_spec_t((double)(sim::now_ns() / 1000000000ull)); } void multi_usrp::set_time_next_pps(const time_spec_t&, size_t) {}
}
}
template <class T, size_t N> static void uhd_rx() {
    std::string fs; uint64_t n; unsigned stops; { Quiet z; d = Dev(); d.nch = N; uhd::usrp::in_ctl = false; }
    typedef SourceUHDBlock<T> B; unsigned lazy = C(2) ? 0 : 3 + C(3); std::vector<std::unique_ptr<Collect<T>>> c;
    for (size_t i = 0; i < N; i++) { size_t oc = out_cap(sizeof(T)); unsigned l = C(2) ? lazy : 0; c.push_back(std::make_unique<Collect<T>>(oc, l, (unsigned)i)); }
    auto b = make_block<B>([&] { return std::make_unique<B>("uhd", 1e8, 2e6, "", 20.0, N); });
    { Quiet z; n = 500 + sim::work(4000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; fs = rates(true, true, true); sim::sample("USRP receiver, %zu channels of %zu-byte samples: %llu samples, MTU %zu, %s%s, %u stops", N, sizeof(T), (unsigned long long)n, d.mtu, fs.c_str(), lazy ? ", lazy readers" : "", stops); }
    std::vector<uint64_t> pushed(N, 0); for (size_t i = 0; i < N; i++) { c[i]->in.pushed = [&pushed, i](const T*, size_t k) { pushed[i] += k; }; }
    Wrap<B> w(*b, true); w.after = [&] {
        for (size_t i = 0; i < N; i++) if (pushed[i] != d.delivered) sim::fail("lost-sample", "the driver delivered %llu samples, %llu were handed on to output %zu", (unsigned long long)d.delivered, (unsigned long long)pushed[i], i);
        if (b->get_overflow_count() != d.overflows) sim::fail("wrong-count", "the driver reported %u overflows, the block counted %zu", d.overflows, b->get_overflow_count()); };
    bool ctl = C(2); { Quiet z; uhd::usrp::in_ctl = true; sim::set_rate(sim::F_SOFT_ERR, 200); } std::atomic<bool> quit{false}; std::thread control;
    if (ctl) control = std::thread([&] { for (unsigned left = 1 + Wk(12); left && !quit; left--) { pause_(); UHDConfig k; k.center_freq_Hz = 1e8 + Wk(100); (void)b->configure(k, Wk(N)); (void)b->get_overflow_count(); } });
    auto done = [&] { for (auto& x : c) if (x->got < n) return false; return true; };
    auto o = [&](size_t i) { return (ChannelBase<T>*)&c[i]->in; };
    if constexpr (N == 1) drive(done, stops, nullptr, BlockRunner(&w, o(0)), BlockRunner(c[0].get()));
    else if constexpr (N == 2) drive(done, stops, nullptr, BlockRunner(&w, o(0), o(1)), BlockRunner(c[0].get()), BlockRunner(c[1].get()));
    else drive(done, stops, nullptr, BlockRunner(&w, o(0), o(1), o(2)), BlockRunner(c[0].get()), BlockRunner(c[1].get()), BlockRunner(c[2].get()));
    quit = true; if (control.joinable()) control.join();
    { Quiet z; if (d.calls > 2) sim::nontrivial(); }
    b.reset(); closed();
}
template <class T, size_t N> static void uhd_tx() {
    std::string fs; uint64_t n; unsigned stops; { Quiet z; d = Dev(); d.nch = N; uhd_async_underflows = 0; uhd_async.clear(); uhd::usrp::in_ctl = false; }
    typedef SinkUHDBlock<T> B; size_t buf = pick_buf(sizeof(T)); bool conf = C(2); UHDConfig uc; { Quiet z; n = 1500 + sim::work(4000); stops = sim::cfg(3) == 0 ? 1 + sim::cfg(2) : 0; }
    std::vector<std::unique_ptr<Produce<T>>> p; for (size_t i = 0; i < N; i++) { unsigned l = C(2) ? 0 : 2 + C(4); p.push_back(std::make_unique<Produce<T>>(n, (unsigned)i, l)); }
    auto b = make_block<B>([&] { return std::make_unique<B>("uhd", "", N, buf, "sc16", conf ? &uc : nullptr); });
    { Quiet z; fs = rates(false, true, true); sim::sample("USRP transmitter, %zu channels of %zu-byte samples: %llu samples, MTU %zu, ring %zu, %s, %u stops", N, sizeof(T), (unsigned long long)n, d.mtu, buf, fs.c_str(), stops); }
    Wrap<B> w(*b, true); w.after = [&] { if (b->get_underflow_count() != uhd_async_underflows) sim::fail("wrong-count", "the driver reported %llu underflows, the block counted %zu", (unsigned long long)uhd_async_underflows, b->get_underflow_count()); };
    bool ctl = C(2); { Quiet z; uhd::usrp::in_ctl = true; sim::set_rate(sim::F_SOFT_ERR, 200); } std::atomic<bool> quit{false}; std::thread control;
    if (ctl) control = std::thread([&] { for (unsigned left = 1 + Wk(12); left && !quit; left--) { pause_(); UHDConfig k; k.center_freq_Hz = 1e8 + Wk(100); (void)b->configure(k, Wk(N)); (void)b->get_underflow_count(); } });
    auto done = [&] { return n - d.taken < cler::DOUBLY_MAPPED_MIN_SIZE / sizeof(T) / 4; };
    auto stopped = [&] { for (size_t i = 0; i < N; i++) if (p[i]->next - d.taken != b->in[i].size()) sim::fail("lost-sample", "%llu samples went into channel %zu, the driver took %llu, %zu wait", (unsigned long long)p[i]->next, i, (unsigned long long)d.taken, b->in[i].size()); };
    auto q = [&](size_t i) { return (ChannelBase<T>*)&b->in[i]; };
    if constexpr (N == 1) drive(done, stops, stopped, BlockRunner(p[0].get(), q(0)), BlockRunner(&w));
    else if constexpr (N == 2) drive(done, stops, stopped, BlockRunner(p[0].get(), q(0)), BlockRunner(p[1].get(), q(1)), BlockRunner(&w));
    else drive(done, stops, stopped, BlockRunner(p[0].get(), q(0)), BlockRunner(p[1].get(), q(1)), BlockRunner(p[2].get(), q(2)), BlockRunner(&w));
    quit = true; if (control.joinable()) control.join();
    { Quiet z; if (d.calls > 2) sim::nontrivial(); }
    b.reset(); closed();
}
static void s_uhd_rx() { switch (C(4)) { case 0: uhd_rx<std::complex<float>, 2>(); break; case 1: uhd_rx<std::complex<float>, 1>(); break; case 2: uhd_rx<std::complex<int16_t>, 3>(); break; default: uhd_rx<std::complex<int16_t>, 1>(); } }
static void s_uhd_tx() { switch (C(4)) { case 0: uhd_tx<std::complex<float>, 2>(); break; case 1: uhd_tx<std::complex<float>, 1>(); break; case 2: uhd_tx<std::complex<int16_t>, 3>(); break; default: uhd_tx<std::complex<int16_t>, 1>(); } }

static const sim::Scenario S[] = {{"hackrf_rx", 3, s_hackrf_rx}, {"hackrf_tx", 3, s_hackrf_tx}, {"soapy_rx", 2, s_soapy_rx}, {"soapy_tx", 2, s_soapy_tx}, {"caribou", 1, s_caribou}, {"audio", 2, s_audio}, {"uhd_rx", 2, s_uhd_rx}, {"uhd_tx", 2, s_uhd_tx}};
int main(int c, char** v) { return sim::main(c, v, S, sizeof S / sizeof *S); }
